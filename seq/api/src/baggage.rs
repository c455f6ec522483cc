//! C20: baggage as a bounded map. C21: injection, extraction, malformed headers.
use bmc::*;
use opentelemetry::baggage::{Baggage, BaggageExt, BaggageMetadata, KeyValueMetadata};
use opentelemetry::propagation::TextMapPropagator;
use opentelemetry::{Context, Key, KeyValue, StringValue};
use opentelemetry_sdk::propagation::BaggagePropagator;
use std::collections::{BTreeMap, HashMap};

type M = BTreeMap<String, (String, String)>;
/// RFC 7230 token
fn valid_key(k: &str) -> bool {
    !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
}
fn content(m: &M) -> usize {
    m.iter().map(|(k, v)| k.len() + v.0.len() + v.1.len()).sum()
}
/// The reference: a map that refuses what would break a limit.
fn insert(m: &mut M, k: &str, v: &str, meta: &str) -> Option<(String, String)> {
    let meta = meta.trim();
    if !valid_key(k) {
        return None;
    }
    let mut n = m.clone();
    let old = n.insert(k.into(), (v.into(), meta.into()));
    if n.len() > 64 || content(&n) > 8192 {
        return None;
    }
    *m = n;
    old
}
fn dump(b: &Baggage) -> M {
    b.iter().map(|(k, (v, m))| (k.to_string(), (v.to_string(), m.to_string()))).collect()
}
fn short(m: &M) -> Vec<(String, usize, String, usize)> {
    m.iter().map(|(k, v)| (k.clone(), v.0.len(), v.0.chars().take(8).collect(), v.1.len())).collect()
}
fn agree(b: &Baggage, m: &M, probe: &[&str]) -> R {
    same!(short(&dump(b)), short(m), "entries");
    ensure!(dump(b) == *m, "entries differ");
    same!(b.len(), m.len(), "len");
    same!(b.iter().count(), m.len(), "iterated entries");
    same!(b.is_empty(), m.is_empty(), "is_empty");
    for k in probe {
        let w = m.get(*k);
        ensure!(b.get(k).map(|v| v.as_str()) == w.map(|w| w.0.as_str()), "get({k})");
        ensure!(b.get_with_metadata(k).map(|v| (v.0.as_str(), v.1.as_str())) == w.map(|w| (w.0.as_str(), w.1.as_str())), "get_with_metadata({k})");
    }
    Ok(())
}
#[derive(Clone, Debug)]
enum Op {
    Ins(&'static str, (char, usize)),
    Meta(&'static str, (char, usize), (char, usize)),
    Rem(&'static str),
}
fn rep(x: (char, usize)) -> String {
    x.0.to_string().repeat(x.1)
}
fn play(b: &mut Baggage, m: &mut M, s: &[Op], o: &mut Obs, probe: &[&str]) -> R {
    for (i, op) in s.iter().enumerate() {
        match op {
            Op::Ins(k, v) => {
                let (got, want) = (b.insert(*k, rep(*v)), insert(m, k, &rep(*v), ""));
                ensure!(got.as_ref().map(|g| g.as_str()) == want.as_ref().map(|w| w.0.as_str()), "step {i} {op:?}: insert returned {:?}", got.map(|g| g.as_str().len()));
            }
            Op::Meta(k, v, x) => {
                let (got, want) = (b.insert_with_metadata(*k, rep(*v), rep(*x)), insert(m, k, &rep(*v), &rep(*x)));
                ensure!(got.as_ref().map(|g| (g.0.as_str(), g.1.as_str())) == want.as_ref().map(|w| (w.0.as_str(), w.1.as_str())), "step {i} {op:?}: insert_with_metadata returned {:?}", got.map(|g| (g.0.as_str().len(), g.1.as_str().len())));
            }
            Op::Rem(k) => {
                let (got, want) = (b.remove(k), m.remove(*k));
                ensure!(got.as_ref().map(|g| (g.0.as_str(), g.1.as_str())) == want.as_ref().map(|w| (w.0.as_str(), w.1.as_str())), "step {i} {op:?}: remove returned {:?}", got.map(|g| (g.0.as_str().len(), g.1.as_str().len())));
            }
        }
        agree(b, m, probe).map_err(|f| Fail { msg: format!("after step {i} {op:?}: {}", f.msg), ..f })?;
        o.step(&short(m));
    }
    o.outcome(&short(m));
    Ok(())
}
fn ops(r: &mut Run) {
    let mut al = vec![Op::Ins("", ('v', 1)), Op::Ins("a b", ('v', 1)), Op::Ins("\u{e9}", ('v', 1))];
    for k in ["a", "bb"] {
        for v in [('v', 0), ('w', 1), ('x', 4094), ('y', 4095), ('z', 8190), ('\u{e9}', 2047)] {
            al.push(Op::Ins(k, v));
        }
        al.push(Op::Meta(k, ('v', 1), ('m', 1)));
        al.push(Op::Meta(k, ('v', 1), ('n', 4094)));
        al.push(Op::Meta(k, ('v', 2), (' ', 3)));
        al.push(Op::Rem(k));
    }
    al.push(Op::Rem("A"));
    let d = r.pick(3, 4);
    r.all_sequences(&al, d, |s| format!("{s:?}"), |s, o| play(&mut Baggage::new(), &mut M::new(), s, o, &["a", "bb", "A", "", "a b"]));
}
/// Long histories of replacing and removing: the accounted size must not drift.
fn size_drift(r: &mut Run) {
    let al = [Op::Ins("a", ('x', 4095)), Op::Ins("b", ('y', 4095)), Op::Ins("b", ('y', 4096)), Op::Meta("a", ('v', 1), ('m', 3000)), Op::Rem("a"), Op::Rem("b")];
    let d = r.pick(6, 8);
    r.sequences(&al, d, |s| format!("{s:?}"), |s, o| play(&mut Baggage::new(), &mut M::new(), s, o, &["a", "b"]));
}
fn count_limit(r: &mut Run) {
    let al = [
        Op::Ins("k0", ('n', 2)), Op::Ins("n1", ('v', 1)), Op::Ins("n2", ('v', 1)), Op::Ins("n3", ('v', 1)), Op::Ins("n 1", ('v', 1)),
        Op::Rem("k0"), Op::Rem("k1"), Op::Rem("n1"), Op::Rem("zz"), Op::Meta("k1", ('q', 1), ('m', 1)), Op::Ins("k1", ('q', 8192)),
    ];
    let d = r.pick(4, 5);
    for pre in 61..=66usize {
        r.sequences(&al, d, |s| format!("{pre} entries, then {s:?}"), |s, o| {
            let (mut b, mut m) = (Baggage::new(), M::new());
            for i in 0..pre {
                b.insert(format!("k{i}"), format!("{i}"));
                insert(&mut m, &format!("k{i}"), &format!("{i}"), "");
            }
            play(&mut b, &mut m, s, o, &["k0", "k1", "k63", "k64", "n1", "n2", "n3"])
        });
    }
}
fn key_syntax(r: &mut Run) {
    let al: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).chain(["\u{80}".into(), "\u{e9}".into(), "\u{1F680}".into()]).collect();
    let al: Vec<&str> = al.iter().map(|s| s.as_str()).collect();
    for k in strings(&al, 2) {
        if !r.go() {
            return;
        }
        r.case(|| format!("key {k:?}"), |o| {
            let (mut b, mut m) = (Baggage::new(), M::new());
            b.insert("z", "1");
            insert(&mut m, "z", "1", "");
            b.insert(k.clone(), "v");
            insert(&mut m, &k, "v", "");
            agree(&b, &m, &[&k, "z"])?;
            o.outcome(&m.len());
            Ok(())
        });
    }
}
/// Building baggage from iterators is inserting in order; its display names every entry once.
fn conversions(r: &mut Run) {
    let es = [("a", "1", ""), ("a", "2", "m=1;n"), ("b", "x y", " p "), ("b b", "v", ""), ("c", "\u{e9}%,;=", "q"), ("", "v", "m")];
    let ix: Vec<usize> = (0..es.len()).collect();
    let d = r.pick(4, 5);
    r.all_sequences(&ix, d, |s| format!("{s:?}"), |s, o| {
        let (mut m, mut plain) = (M::new(), M::new());
        for &i in s {
            insert(&mut m, es[i].0, es[i].1, es[i].2);
            insert(&mut plain, es[i].0, es[i].1, "");
        }
        let kvm = || s.iter().map(|&i| KeyValueMetadata::new(es[i].0, es[i].1, es[i].2));
        let kv = || s.iter().map(|&i| KeyValue::new(es[i].0, es[i].1));
        let full = kvm().collect::<Baggage>();
        agree(&full, &m, &["a", "b", "c"])?;
        agree(&Baggage::from(kvm().collect::<Vec<_>>()), &m, &["a"])?;
        agree(&s.iter().map(|&i| (Key::from(es[i].0), (StringValue::from(es[i].1), BaggageMetadata::from(es[i].2)))).collect::<Baggage>(), &m, &["a"])?;
        agree(&kv().collect::<Baggage>(), &plain, &["a"])?;
        agree(&Baggage::from(kv().collect::<Vec<_>>()), &plain, &["b"])?;
        agree(Context::new().with_baggage(kv().collect::<Vec<_>>()).baggage(), &plain, &["c"])?;
        // display: name=percent-encoded value[;metadata], comma separated, any order
        let mut got: Vec<String> = full.to_string().split(',').filter(|s| !s.is_empty()).map(|s| s.into()).collect();
        got.sort();
        let mut want: Vec<String> = m.iter().map(|(k, (v, x))| {
            let v: String = v.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-._~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect();
            format!("{k}={v}{}{x}", if x.is_empty() { "" } else { ";" })
        }).collect();
        want.sort();
        same!(got, want, "display");
        o.step(&short(&m));
        o.outcome(&short(&m));
        Ok(())
    });
}
/// Baggage in contexts: set, inherited, replaced, cleared; the parents stay as they were.
fn in_context(r: &mut Run) {
    #[derive(Clone, Copy, Debug)]
    enum C { Set(u8), SetEmpty, Clear, Value, Back, Attach, CurrentSet(u8), Detach, Span }
    let al = [C::Set(1), C::Set(2), C::SetEmpty, C::Clear, C::Value, C::Back, C::Attach, C::CurrentSet(3), C::Detach, C::Span];
    let d = r.pick(5, 6);
    r.sequences(&al, d, |s| format!("{s:?}"), |s, o| {
        let mk = |n: u8| (vec![KeyValue::new("k", n as i64), KeyValue::new(format!("k{n}"), "v")], M::from([("k".into(), (n.to_string(), "".into())), (format!("k{n}"), ("v".into(), "".into()))]));
        let mut made: Vec<(Context, M)> = vec![(Context::new(), M::new())];
        let mut cur = 0;
        let mut guards: Vec<(opentelemetry::ContextGuard, M)> = vec![];
        for (i, c) in s.iter().enumerate() {
            let (cx, m) = made[cur].clone();
            let top = guards.last().map(|g| g.1.clone()).unwrap_or_default();
            let new = match c {
                C::Set(n) => (cx.with_baggage(mk(*n).0), mk(*n).1),
                C::SetEmpty => (cx.with_baggage(Vec::<KeyValue>::new()), M::new()),
                C::Clear => (cx.with_cleared_baggage(), M::new()),
                C::Value => (cx.with_value(7u8), m),
                C::Span => (cx.with_telemetry_suppressed(), m),
                C::Back => {
                    cur = cur.saturating_sub(1);
                    continue;
                }
                C::CurrentSet(n) => (Context::current_with_baggage(mk(*n).0), mk(*n).1),
                C::Attach => {
                    guards.push((cx.attach(), m));
                    continue;
                }
                C::Detach => {
                    guards.pop();
                    continue;
                }
            };
            made.push(new);
            cur = made.len() - 1;
            same!(Context::map_current(|c| dump(c.baggage())), top, "step {i}: baggage of the current context");
            for (k, (c, m)) in made.iter().enumerate() {
                same!(dump(c.baggage()), *m, "step {i} ({:?}): baggage of context {k}", s[i]);
                same!(c.baggage().len(), m.len(), "len");
            }
            o.step(&made.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
        }
        while guards.pop().is_some() {}
        o.outcome(&made.iter().map(|x| x.1.len()).collect::<Vec<_>>());
        Ok(())
    });
}

// ---------------------------------------------------------------- C21
fn inject(b: Baggage) -> HashMap<String, String> {
    let mut h = HashMap::new();
    BaggagePropagator::new().inject_context(&Context::new().with_baggage(b), &mut h);
    h
}
fn extract(h: &HashMap<String, String>) -> Context {
    BaggagePropagator::new().extract_with_context(&Context::new(), h)
}
fn trip(m: &M, o: &mut Obs) -> R {
    let mut b = Baggage::new();
    for (k, (v, x)) in m {
        b.insert_with_metadata(k.clone(), v.clone(), x.as_str());
    }
    ensure!(dump(&b) == *m, "baggage does not accept the entries: {:?}", dump(&b));
    let h = inject(b);
    for (k, v) in &h {
        same!(k.as_str(), "baggage", "header name");
        ensure!(v.bytes().all(|b| (0x20..0x7f).contains(&b)), "header has characters that cannot be sent: {v:?}");
    }
    same!(h.len(), !m.is_empty() as usize, "number of headers");
    let got = dump(extract(&h).baggage());
    same!(got, *m, "extracted from {:?}", h.get("baggage"));
    o.step(m);
    o.outcome(&h.get("baggage"));
    Ok(())
}
/// Properties are separated by `;` and white space around them is not significant.
fn stable_meta(s: &str) -> bool {
    s.split(';').all(|p| p == p.trim())
}
fn roundtrip_values(r: &mut Run) {
    let al = ["a", " ", "%", ";", ",", "=", "\"", "\u{e9}", "\t", "\u{1F600}", "\\", "+", "4", "\u{7f}", "\u{0}", "\u{a0}"];
    let vs = strings(&al, r.pick(3, 4));
    let ms: Vec<String> = strings(&["a", ";", "=", "%", ",", "\u{e9}", "\"", " ", "4", "\n"], 2).into_iter().filter(|s| stable_meta(s)).collect();
    for v in &vs {
        if !r.go() {
            return;
        }
        r.case(|| format!("value {v:?}"), |o| {
            trip(&M::from([("k".into(), (v.clone(), "".into()))]), o)?;
            trip(&M::from([("a".into(), (v.clone(), "p=1;q".into())), ("b".into(), (v.chars().rev().collect(), "".into()))]), o)
        });
    }
    for m in strings(&["a", ";", "=", "%", ",", "\u{e9}", "\"", " ", "4", "\n", "\u{0}"], r.pick(3, 4)).into_iter().filter(|s| stable_meta(s)) {
        r.case(|| format!("metadata {m:?}"), |o| {
            for v in ["", "v", ";,%"] {
                trip(&M::from([("k".into(), (v.into(), m.clone())), ("l".into(), (v.into(), "".into()))]), o)?;
            }
            Ok(())
        });
    }
    // pairs of entries
    for v in vs.iter().filter(|v| v.chars().count() <= 1) {
        for w in vs.iter().filter(|v| v.chars().count() <= 1) {
            for (i, m) in ms.iter().enumerate() {
                r.case(|| format!("values {v:?};{m:?} and {w:?}"), |o| trip(&M::from([("k".into(), (v.clone(), m.clone())), ("l".into(), (w.clone(), ms[(i * 7) % ms.len()].clone())), ("m".into(), (v.clone(), "".into()))]), o));
            }
        }
    }
}
fn roundtrip_names(r: &mut Run) {
    let al: Vec<String> = (33u8..127).map(|b| (b as char).to_string()).filter(|s| valid_key(s)).collect();
    let al: Vec<&str> = al.iter().map(|s| s.as_str()).collect();
    for k in strings(&al, 2) {
        if valid_key(&k) {
            r.case(|| format!("name {k:?}"), |o| trip(&M::from([(k.clone(), ("v=1".into(), "m".into())), ("zz9".into(), (k.clone(), k.clone()))]), o));
        }
    }
    for a in ["%", "%4", "%41", "A", "a"] {
        for b in ["%", "%25", "B", "b"] {
            r.case(|| format!("names {a:?} {b:?}"), |o| trip(&M::from([(a.into(), ("1".into(), "".into())), (b.into(), ("2".into(), "m".into()))]), o));
        }
    }
    // full baggage still fits through the header
    for n in [1usize, 2, 63, 64] {
        for each in [1usize, 50, 8192 / n - 4] {
            r.case(|| format!("{n} entries of {each} characters"), |o| trip(&(0..n).map(|i| (format!("k{i}"), ("%".repeat(each), "".into()))).collect(), o));
        }
    }
}
fn decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
    let (mut out, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) {
                out.push(h * 16 + l);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8(out).ok()
}
/// Reference parser. None for metadata that is not defined (undecodable property).
fn parse(h: &str) -> BTreeMap<String, (String, Option<String>)> {
    let mut m = M::new();
    let mut undefined = vec![];
    for member in h.split(',') {
        let mut parts = member.split(';');
        let Some((k, v)) = parts.next().unwrap().split_once('=') else { continue };
        let (Some(k), Some(v)) = (decode(k.trim()), decode(v.trim())) else { continue };
        let props: Vec<Option<String>> = parts.map(|p| decode(p.trim())).collect();
        undefined.retain(|u| *u != k);
        if props.iter().any(|p| p.is_none()) {
            undefined.push(k.clone());
        }
        insert(&mut m, &k, &v, &props.into_iter().flatten().collect::<Vec<_>>().join(";"));
    }
    m.into_iter().map(|(k, (v, x))| { let x = (!undefined.contains(&k)).then_some(x); (k, (v, x)) }).collect()
}
fn parse_case(h: &str, o: &mut Obs) -> R {
    let base = Context::new().with_value(3u8);
    let mut c = HashMap::new();
    c.insert("baggage".to_string(), h.to_string());
    let cx = BaggagePropagator::new().extract_with_context(&base, &c);
    same!(cx.get::<u8>(), Some(&3), "other context values");
    let (got, want) = (dump(cx.baggage()), parse(h));
    same!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "names");
    for (k, (v, m)) in &want {
        same!(got[k].0, *v, "value of {k}");
        if let Some(m) = m {
            same!(got[k].1, *m, "metadata of {k}");
        }
    }
    same!(cx.baggage().len(), got.len(), "len");
    o.step(&want);
    o.outcome(&want);
    Ok(())
}
fn headers(r: &mut Run) {
    let n = r.pick(5, 6);
    let al = ["a", "b", "=", ",", ";", " ", "%", "%41", "%ff"];
    r.all_sequences(&al, n, |s| format!("header {:?}", s.concat()), |s, o| parse_case(&s.concat(), o));
}
/// Well-formed members next to any malformed one.
fn contained(r: &mut Run) {
    let bad = ["", "x", "=v", "x y=1", "%ff=1", "x=%ff", "x=%c3", "\u{e9}=1", ";m=1", "=", "a", "(=1", ";", "=;=", "x=%ff;m", "\u{0}=1", "%=", " ", "%00=x"];
    let good = ["a=1", "a=2;m", "b = x%20y ;p=1; q", "c==", "d=", "%61=3", "b=%2C;%2C", "e=1=2", "f=%", "g=a b"];
    let all: Vec<&str> = bad.iter().chain(good.iter()).copied().collect();
    let d = r.pick(3, 4);
    r.all_sequences(&all, d, |s| format!("header {:?}", s.join(",")), |s, o| parse_case(&s.join(","), o));
}
fn header_limits(r: &mut Run) {
    for n in 60..=70usize {
        for dup in [false, true] {
            for bad in [0usize, 1, 5] {
                r.case(|| format!("{n} members, duplicates {dup}, {bad} malformed"), |o| {
                    let mut v: Vec<String> = (0..n).map(|i| format!("k{}=v{i}", if dup { i % 40 } else { i })).collect();
                    for i in 0..bad {
                        v.insert(i * 7, format!("bad {i}"));
                    }
                    parse_case(&v.join(","), o)
                });
            }
        }
    }
    for a in [1usize, 4095, 4096, 8190, 8191, 8192, 8193, 20000] {
        for b in [1usize, 4094, 4095, 4096, 8192] {
            for enc in ["x", "%41", "\u{e9}"] {
                for meta in ["", ";m", ";m=1; n"] {
                    r.case(|| format!("members of {a} and {b} x {enc:?}, metadata {meta:?}"), |o| parse_case(&format!("a={}{meta},b={},c=1", enc.repeat(a), enc.repeat(b)), o));
                }
            }
        }
    }
    let none: HashMap<String, String> = HashMap::new();
    r.case(|| "no header".into(), |o| {
        let base = Context::new().with_baggage(vec![KeyValue::new("a", "1")]);
        let cx = BaggagePropagator::new().extract_with_context(&base, &none);
        same!(dump(cx.baggage()), dump(base.baggage()), "without a header the context keeps its baggage");
        o.outcome(&1);
        Ok(())
    });
}
pub fn families() -> Vec<Family> {
    vec![
        family("C20", "baggage_ops", ops),
        family("C20", "baggage_size_drift", size_drift),
        family("C20", "baggage_count_limit", count_limit),
        family("C20", "baggage_key_syntax", key_syntax),
        family("C20", "baggage_conversions", conversions),
        family("C20", "baggage_in_context", in_context),
        family("C21", "baggage_roundtrip_values", roundtrip_values),
        family("C21", "baggage_roundtrip_names", roundtrip_names),
        family("C21", "baggage_headers", headers),
        family("C21", "baggage_contained", contained),
        family("C21", "baggage_header_limits", header_limits),
    ]
}
