//! C37: views.
use crate::common::*;
use crate::model::*;
use crate::sync::default_agg;
use bmc::*;
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::{InstrumentationScope, Key, KeyValue};
use opentelemetry_sdk::metrics::{new_view, Aggregation, Instrument, InstrumentKind as K, SdkMeterProvider, Stream as ViewStream, Temporality};
use opentelemetry_sdk::Resource;
use std::collections::{BTreeMap, BTreeSet};

/// Criteria of a view, all parts optional.
#[derive(Clone, Debug, Default)]
struct Crit {
    name: &'static str,
    kind: Option<K>,
    unit: &'static str,
    desc: &'static str,
    scope: &'static str,
    version: Option<&'static str>,
    url: Option<&'static str>,
}
#[derive(Clone, Debug, Default)]
struct Mask {
    name: &'static str,
    desc: &'static str,
    unit: &'static str,
    agg: Option<Aggregation>,
    keys: Option<Vec<&'static str>>,
}
#[derive(Clone, Debug)]
struct V(Crit, Mask);

struct Def {
    meter: usize,
    kind: Kind,
    d: Decl,
}
type Meter = (&'static str, Option<&'static str>, Option<&'static str>);
const METERS: [Meter; 3] = [("m1", None, None), ("m2", Some("1"), Some("u")), ("m3", Some("2"), Some("v"))];
fn defs() -> Vec<Def> {
    let mk = |meter, kind, name: &'static str, desc: &'static str, unit: &'static str, bounds| Def {
        meter, kind,
        d: Decl { name: name.into(), desc: desc.into(), unit: unit.into(), bounds, limit: None },
    };
    vec![
        mk(0, Kind(K::Counter, Ty::U), "req.count", "d1", "By", None),
        mk(0, Kind(K::Histogram, Ty::F), "req.time", "", "s", Some(vec![1.0, 10.0])),
        mk(1, Kind(K::UpDownCounter, Ty::I), "req/conn", "d1", "By", None),
        mk(1, Kind(K::Gauge, Ty::F), "Temp", "d2", "", None),
        mk(2, Kind(K::ObservableCounter, Ty::U), "req.obs", "", "By", None),
        mk(0, Kind(K::Counter, Ty::U), "hits", "d1", "By", None),
    ]
}
/// `*`: any number of characters, `?`: one character.
fn glob(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|k| glob(&p[1..], &s[k..])),
        Some(b'?') => !s.is_empty() && glob(&p[1..], &s[1..]),
        Some(c) => s.first() == Some(c) && glob(&p[1..], &s[1..]),
    }
}
impl V {
    fn matches(&self, d: &Def) -> bool {
        let (c, m) = (&self.0, METERS[d.meter]);
        let wild = c.name.contains(['*', '?']);
        if c.name.is_empty() && c.kind.is_none() && c.unit.is_empty() && c.desc.is_empty() && c.scope.is_empty() && c.version.is_none() && c.url.is_none() {
            return false;
        }
        // a view that may match several instruments must not rename
        if wild && !self.1.name.is_empty() {
            return false;
        }
        (c.name.is_empty() || if wild { glob(c.name.as_bytes(), d.d.name.as_bytes()) } else { c.name == d.d.name })
            && c.kind.map_or(true, |k| k == d.kind.0)
            && (c.unit.is_empty() || c.unit == d.d.unit)
            && (c.desc.is_empty() || c.desc == d.d.desc)
            && (c.scope.is_empty() || c.scope == m.0)
            && (c.version.is_none() || c.version == m.1)
            && (c.url.is_none() || c.url == m.2)
    }
    fn build(&self) -> Box<dyn opentelemetry_sdk::metrics::View> {
        let c = &self.0;
        let mut i = Instrument::new().name(c.name).unit(c.unit).description(c.desc);
        i.kind = c.kind;
        let mut b = InstrumentationScope::builder(c.scope);
        if let Some(v) = c.version {
            b = b.with_version(v);
        }
        if let Some(v) = c.url {
            b = b.with_schema_url(v);
        }
        i.scope = b.build();
        let m = &self.1;
        let mut s = ViewStream::new().name(m.name).description(m.desc).unit(m.unit).cardinality_limit(10);
        if let Some(a) = &m.agg {
            s = s.aggregation(a.clone());
        }
        if let Some(k) = &m.keys {
            s = s.allowed_attribute_keys(k.iter().map(|k| Key::new(*k)));
        }
        new_view(i, s).unwrap()
    }
}
/// The aggregation for an instrument, None to drop, Err if it has no meaning for it.
fn aggregation(a: &Option<Aggregation>, d: &Def) -> Result<Option<Agg>, ()> {
    let sum = !matches!(d.kind.0, K::UpDownCounter | K::ObservableUpDownCounter | K::ObservableGauge);
    let gauge = matches!(d.kind.0, K::Gauge | K::ObservableGauge);
    Ok(Some(match a {
        None | Some(Aggregation::Default) => match (&d.d.bounds, default_agg(d.kind)) {
            (Some(b), Agg::Hist { minmax, sum, .. }) => Agg::Hist { bounds: b.clone(), minmax, sum },
            (_, g) => g,
        },
        Some(Aggregation::Drop) => return Ok(None),
        Some(Aggregation::Sum) if gauge => return Err(()),
        Some(Aggregation::Sum) if d.kind.0 == K::Histogram => Agg::Sum(true),
        Some(Aggregation::Sum) => default_agg(d.kind),
        Some(Aggregation::LastValue) if !gauge => return Err(()),
        Some(Aggregation::LastValue) => Agg::Last,
        Some(Aggregation::ExplicitBucketHistogram { boundaries, record_min_max }) => Agg::Hist { bounds: boundaries.clone(), minmax: *record_min_max, sum },
        Some(Aggregation::Base2ExponentialHistogram { max_size, max_scale, record_min_max }) => Agg::Expo { size: *max_size, scale: *max_scale, minmax: *record_min_max, sum },
        Some(x) => panic!("aggregation {x:?}"),
    }))
}
/// What identifies a stream: scope, name without case, description, unit, instrument kind and type.
type Id = (usize, String, String, String, Kind);
#[derive(Clone, Debug, PartialEq)]
struct Conf {
    agg: Option<Agg>,
    keys: Option<Vec<&'static str>>,
}
struct Plan {
    /// Per instrument: the streams it feeds.
    feeds: Vec<Vec<Id>>,
    confs: BTreeMap<String, (Id, String, Conf)>,
    /// Streams whose definitions conflict: what they hold is not specified.
    conflict: BTreeSet<String>,
}
fn plan(views: &[&V], ds: &[Def]) -> Plan {
    let mut p = Plan { feeds: vec![], confs: BTreeMap::new(), conflict: BTreeSet::new() };
    for d in ds {
        let mut mine: Vec<(Id, String, Conf)> = vec![];
        let (mut hit, mut bad) = (false, false);
        let mut add = |name: &str, desc: &str, unit: &str, agg: &Option<Aggregation>, keys: Option<Vec<&'static str>>| match aggregation(agg, d) {
            Ok(agg) => mine.push(((d.meter, name.to_ascii_lowercase(), desc.into(), unit.into(), d.kind), name.into(), Conf { agg, keys })),
            Err(()) => bad = true,
        };
        for v in views.iter().filter(|v| v.matches(d)) {
            hit = true;
            let m = &v.1;
            let or = |a: &'static str, b: &str| if a.is_empty() { b.to_string() } else { a.to_string() };
            add(&or(m.name, &d.d.name), &or(m.desc, &d.d.desc), &or(m.unit, &d.d.unit), &m.agg, m.keys.clone());
        }
        if !hit {
            add(&d.d.name, &d.d.desc, &d.d.unit, &None, None);
        }
        let mut f: Vec<Id> = vec![];
        for (id, name, conf) in mine {
            let k = format!("{id:?}");
            match p.confs.get(&k) {
                Some((_, n, c)) if *c != conf || *n != name => {
                    p.conflict.insert(k);
                }
                Some(_) => {}
                None => {
                    p.confs.insert(k.clone(), (id.clone(), name, conf));
                }
            }
            if bad {
                // an instrument with a meaningless aggregation is inert; whether its other streams exist is not specified
                p.conflict.insert(format!("{id:?}"));
            }
            if !f.contains(&id) {
                f.push(id);
            }
        }
        p.feeds.push(if bad { vec![] } else { f });
    }
    p
}
fn filtered(kvs: &[KeyValue], keys: &Option<Vec<&'static str>>) -> A {
    attrs(&kvs.iter().filter(|kv| keys.as_ref().map_or(true, |k| k.contains(&kv.key.as_str()))).cloned().collect::<Vec<_>>())
}
fn run(views: &[&V], o: &mut Obs) -> R {
    let ds = defs();
    let p = plan(views, &ds);
    let mut cols = [Col::new(Temporality::Cumulative, true), Col::new(Temporality::Delta, false)];
    let mut b = SdkMeterProvider::builder().with_resource(Resource::builder_empty().build());
    for c in &cols {
        b = b.with_reader(c.rd.clone());
    }
    for v in views {
        b = b.with_view(v.build());
    }
    let mp = b.build();
    let meters: Vec<_> = METERS
        .iter()
        .map(|(n, v, u)| {
            let mut b = InstrumentationScope::builder(*n);
            if let Some(v) = v {
                b = b.with_version(*v);
            }
            if let Some(u) = u {
                b = b.with_schema_url(*u);
            }
            mp.meter_with_scope(b.build())
        })
        .collect();
    let insts: Vec<Inst> = ds.iter().map(|d| Inst::new(&meters[d.meter], d.kind, &d.d)).collect();
    let recs: Vec<(i64, Vec<KeyValue>)> = vec![
        (3, vec![KeyValue::new("a", 1), KeyValue::new("b", 2)]),
        (5, vec![KeyValue::new("b", 3), KeyValue::new("a", 1)]),
        (11, vec![KeyValue::new("a", 2)]),
        (17, vec![]),
        (2, vec![KeyValue::new("c", "x")]),
    ];
    let mut models: Vec<BTreeMap<String, Stream>> = cols
        .iter()
        .enumerate()
        .map(|(r, _)| {
            let pref = if r == 0 { Temporality::Cumulative } else { Temporality::Delta };
            p.confs.iter().filter_map(|(k, (id, _, c))| c.agg.clone().map(|g| (k.clone(), Stream::new(g, temporality(id.4 .0, pref), id.4 .1)))).collect()
        })
        .collect();
    for round in 0..2 {
        let recs = if round == 0 { &recs[..] } else { &recs[1..3] };
        for (i, inst) in insts.iter().enumerate() {
            if let Inst::Ob(f, _) = inst {
                f.obs.lock().unwrap().clear();
            }
            for (v, a) in recs {
                inst.rec(ds[i].kind.1.of(*v), a);
                for id in &p.feeds[i] {
                    let k = format!("{id:?}");
                    let keys = &p.confs[&k].2.keys;
                    for m in &mut models {
                        if let Some(s) = m.get_mut(&k) {
                            s.rec(filtered(a, keys), ds[i].kind.1.of(*v));
                        }
                    }
                }
            }
        }
        for (r, c) in cols.iter_mut().enumerate() {
            let out = c.collect()?;
            let mut got: BTreeMap<(String, String, String, String, String), Vec<Out>> = BTreeMap::new();
            for x in out {
                got.entry((x.scope.clone(), x.name.clone(), x.desc.clone(), x.unit.clone(), format!("{:?}", x.ty))).or_default().push(x);
            }
            // everything expected is there, exactly as configured
            for (k, s) in models[r].iter_mut() {
                let (id, name, _) = &p.confs[k];
                let fed = p.feeds.iter().any(|f| f.contains(id));
                let key = (METERS[id.0].0.to_string(), name.clone(), id.2.clone(), id.3.clone(), format!("{:?}", id.4 .1));
                if p.conflict.contains(k) {
                    got.remove(&key);
                    let low = name.to_ascii_lowercase();
                    got.retain(|g, _| !(g.0 == key.0 && g.1.to_ascii_lowercase() == low && g.2 == key.2 && g.3 == key.3));
                    continue;
                }
                if !fed {
                    continue;
                }
                let shape_of = |g: &Agg| match g {
                    Agg::Sum(m) | Agg::Pre(m) => Shape::Sum(*m),
                    Agg::Last => Shape::Gauge,
                    Agg::Hist { .. } => Shape::Hist,
                    Agg::Expo { .. } => Shape::Expo,
                };
                let Some(list) = got.get_mut(&key) else { return Err(format!("round {round}, reader {r}: no stream {key:?}").into()) };
                let Some(at) = list.iter().position(|x| x.shape == shape_of(&s.agg)) else { return Err(format!("round {round}, reader {r}: stream {key:?} aggregated as {:?}, expected {:?}", list[0].shape, s.agg).into()) };
                let x = list.remove(at);
                if list.is_empty() {
                    got.remove(&key);
                }
                s.check(Some(&x)).map_err(|f| keyed(f.key, format!("round {round}, reader {r}, stream {key:?}: {}", f.msg)))?;
            }
            if let Some(k) = got.keys().next() {
                return Err(format!("round {round}, reader {r}: stream {k:?} is not configured").into());
            }
            o.step(&(round, r, format!("{:?}", p.confs)));
        }
    }
    o.outcome(&p.confs.len());
    Ok(())
}
fn crits() -> Vec<Crit> {
    let n = |name| Crit { name, ..Default::default() };
    vec![
        n("req.count"), n("req.time"), n("*"), n("req.*"), n("re?.count"), n("*t*m*"), n("req.????"), n("??????????"), n("req?c*"), n("none"), n("r*x"), Crit::default(),
        Crit { kind: Some(K::Counter), ..Default::default() }, Crit { kind: Some(K::Histogram), ..Default::default() }, Crit { kind: Some(K::Gauge), ..Default::default() },
        Crit { unit: "By", ..Default::default() }, Crit { desc: "d1", ..Default::default() }, Crit { scope: "m2", ..Default::default() }, Crit { scope: "m3", ..Default::default() },
        Crit { version: Some("1"), ..Default::default() }, Crit { url: Some("v"), ..Default::default() }, Crit { name: "*", kind: Some(K::ObservableCounter), ..Default::default() },
        Crit { name: "req*", unit: "s", ..Default::default() }, Crit { name: "req.count", scope: "m2", ..Default::default() }, Crit { name: "*", desc: "d1", scope: "m1", ..Default::default() },
        Crit { name: "*", version: Some("2"), url: Some("u"), ..Default::default() }, Crit { kind: Some(K::UpDownCounter), unit: "By", desc: "d1", ..Default::default() },
    ]
}
fn masks() -> Vec<Mask> {
    let m = |agg| Mask { agg, ..Default::default() };
    vec![
        Mask::default(), Mask { name: "renamed", ..Default::default() }, Mask { name: "RENAMED", ..Default::default() }, Mask { name: "other", ..Default::default() }, Mask { desc: "nd", ..Default::default() },
        Mask { unit: "nu", ..Default::default() }, m(Some(Aggregation::Drop)), m(Some(Aggregation::Default)), m(Some(Aggregation::Sum)), m(Some(Aggregation::LastValue)),
        m(Some(Aggregation::ExplicitBucketHistogram { boundaries: vec![2.0, 4.0], record_min_max: false })), m(Some(Aggregation::Base2ExponentialHistogram { max_size: 4, max_scale: 3, record_min_max: true })),
        Mask { keys: Some(vec![]), ..Default::default() }, Mask { keys: Some(vec!["a"]), ..Default::default() }, Mask { keys: Some(vec!["c", "b"]), ..Default::default() },
        Mask { name: "renamed", keys: Some(vec!["a"]), agg: Some(Aggregation::Sum), ..Default::default() }, Mask { name: "third", desc: "nd", unit: "nu", agg: Some(Aggregation::Drop), ..Default::default() },
        m(Some(Aggregation::ExplicitBucketHistogram { boundaries: vec![4.0, 2.0], record_min_max: true })),
    ]
}
fn one_and_two(r: &mut Run) {
    let ok = |m: &Mask| !matches!(&m.agg, Some(Aggregation::ExplicitBucketHistogram { boundaries, .. }) if boundaries.windows(2).any(|w| w[0] >= w[1]));
    let all: Vec<V> = crits().into_iter().flat_map(|c| masks().into_iter().map(move |m| V(c.clone(), m))).collect();
    r.case(|| "no view".into(), |o| run(&[], o));
    for v in &all {
        if !ok(&v.1) {
            // boundaries that do not increase: the view matches nothing
            r.case(|| format!("{v:?}"), |o| invalid(v, o));
            continue;
        }
        r.case(|| format!("{v:?}"), |o| run(&[v], o));
    }
    let all: Vec<V> = all.into_iter().filter(|v| ok(&v.1)).collect();
    // pairs: in the quick tier those whose criteria can tell the instruments apart in different ways
    let narrow = |v: &V| r.thorough || [0, 2, 3, 6, 12, 15, 16, 17, 19, 22].iter().any(|i| format!("{:?}", crits()[*i]) == format!("{:?}", v.0));
    let all: Vec<V> = all.into_iter().filter(narrow).collect();
    for v in &all {
        for w in &all {
            if !r.go() {
                return;
            }
            r.case(|| format!("{v:?} then {w:?}"), |o| run(&[v, w], o));
        }
    }
}
fn invalid(v: &V, o: &mut Obs) -> R {
    let c = [Col::new(Temporality::Cumulative, true)];
    let _ = &c;
    let mut col = Col::new(Temporality::Cumulative, true);
    let p = SdkMeterProvider::builder().with_resource(Resource::builder_empty().build()).with_reader(col.rd.clone()).with_view(v.build()).build();
    let k = Kind(K::Histogram, Ty::F);
    let mut d = decl("req.time");
    d.bounds = Some(vec![1.0]);
    let i = Inst::new(&p.meter("m1"), k, &d);
    let mut s = Stream::new(Agg::Hist { bounds: vec![1.0], minmax: true, sum: true }, Temporality::Cumulative, Ty::F);
    for x in [0.5, 1.0, 3.0] {
        i.rec(N::F(x), &[]);
        s.rec(vec![], N::F(x));
    }
    o.step(&0);
    s.check(col.one()?.as_ref())
}
/// Three views over the parts that interact: renames that coincide, filters, drops, wildcards.
fn three(r: &mut Run) {
    let cs: Vec<Crit> = r.pick(vec![0, 2, 12], vec![0, 2, 12, 15, 17]).iter().map(|i| crits()[*i].clone()).collect();
    let ms: Vec<Mask> = r.pick(vec![0, 1, 2, 4, 6, 8, 10, 13], vec![0, 1, 2, 3, 4, 6, 8, 9, 10, 11, 12, 13, 15]).iter().map(|i| masks()[*i].clone()).collect();
    let all: Vec<V> = cs.iter().flat_map(|c| ms.iter().map(move |m| V(c.clone(), m.clone()))).collect();
    for a in &all {
        for b in &all {
            for c in &all {
                if !r.go() {
                    return;
                }
                r.case(|| format!("{a:?}, {b:?}, {c:?}"), |o| run(&[a, b, c], o));
            }
        }
    }
}
/// Wildcards against names: every pattern up to a length over a small alphabet, every name.
fn wildcards(r: &mut Run) {
    let pats: Vec<String> = strings(&["a", "b", "*", "?", "/"], r.pick(5, 6)).into_iter().filter(|p| !p.is_empty() && !p.contains("**")).collect();
    let names: Vec<String> = strings(&["a", "b", "/"], 4).into_iter().filter(|n| n.starts_with(['a', 'b'])).collect();
    for p in &pats {
        r.case(|| format!("pattern {p}"), |o| {
            let mut col = Col::new(Temporality::Cumulative, false);
            let v = new_view(Instrument::new().name(p.clone()), ViewStream::new().description("seen").cardinality_limit(1)).map_err(|e| format!("{e}"))?;
            let mp = SdkMeterProvider::builder().with_resource(Resource::builder_empty().build()).with_reader(col.rd.clone()).with_view(v).build();
            let m = mp.meter("m");
            for n in &names {
                let mut d = decl(n);
                d.limit = Some(1);
                Inst::new(&m, Kind(K::Counter, Ty::U), &d).rec(N::U(1), &[]);
            }
            let out = col.collect()?;
            let got: BTreeMap<String, bool> = out.iter().map(|x| (x.name.clone(), x.desc == "seen")).collect();
            let want: BTreeMap<String, bool> = names.iter().map(|n| (n.clone(), if p.contains(['*', '?']) { glob(p.as_bytes(), n.as_bytes()) } else { p == n })).collect();
            same!(got, want, "instruments matched");
            o.step(p);
            o.outcome(&want.values().filter(|x| **x).count());
            Ok(())
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C37", "one_and_two", one_and_two), family("C37", "three", three), family("C37", "wildcards", wildcards)]
}
