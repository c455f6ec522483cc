//! C22 trace state; C23 W3C, C24 Jaeger, C25 B3 propagation; C26 composition.
use bmc::*;
use opentelemetry::baggage::BaggageExt;
use opentelemetry::propagation::{text_map_propagator::FieldIter, Extractor, Injector, TextMapCompositePropagator, TextMapPropagator};
use opentelemetry::trace::noop::NoopTextMapPropagator;
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, KeyValue};
use opentelemetry_http::{HeaderExtractor, HeaderInjector};
use opentelemetry_sdk::propagation::{BaggagePropagator, TraceContextPropagator};
use opentelemetry_zipkin::{B3Encoding, Propagator as B3};
use opentelemetry_jaeger_propagator::Propagator as Jaeger;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;

type H = HashMap<String, String>;
const T: &str = "4bf92f3577b34da6a3ce929d0e0e4736";
const S: &str = "00f067aa0ba902b7";
fn hdr(v: &[(&str, &str)]) -> H {
    v.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

// ---------------------------------------------------------------- C22
fn kchar(b: u8) -> bool {
    b.is_ascii_lowercase() || b.is_ascii_digit() || b"_-*/".contains(&b)
}
/// Keys every version of the grammar accepts.
fn key_ok(k: &str) -> bool {
    match k.split_once('@') {
        None => !k.is_empty() && k.len() <= 256 && k.as_bytes()[0].is_ascii_lowercase() && k.bytes().all(kchar),
        Some((t, s)) => {
            !t.is_empty() && t.len() <= 241 && (t.as_bytes()[0].is_ascii_lowercase() || t.as_bytes()[0].is_ascii_digit()) && t.bytes().all(kchar)
                && !s.is_empty() && s.len() <= 14 && s.as_bytes()[0].is_ascii_lowercase() && s.bytes().all(kchar)
        }
    }
}
/// Keys that no version of the grammar accepts, or that the recommended one refuses for their vendor part.
fn key_bad(k: &str) -> bool {
    let vendor_bad = |v: &str| v.contains('@') || v.len() > 14 || v.as_bytes().first().is_some_and(|b| !b.is_ascii_lowercase() && !b.is_ascii_digit());
    k.split_once('@').is_some_and(|(_, v)| vendor_bad(v)) || k.is_empty() || k.len() > 256 || !(k.as_bytes()[0].is_ascii_lowercase() || k.as_bytes()[0].is_ascii_digit()) || !k.bytes().all(|b| kchar(b) || b == b'@')
}
fn val_chars(v: &str) -> bool {
    v.len() <= 256 && v.bytes().all(|b| (0x20..0x7f).contains(&b) && b != b',' && b != b'=')
}
fn val_ok(v: &str) -> bool {
    val_chars(v) && !v.is_empty() && !v.ends_with(' ')
}
fn entries(t: &TraceState) -> Vec<(String, String)> {
    let h = t.header_delimited("\u{1}", "\u{2}");
    h.split('\u{2}').filter(|s| !s.is_empty()).map(|e| { let (k, v) = e.split_once('\u{1}').unwrap(); (k.into(), v.into()) }).collect()
}
fn ts_agree(t: &TraceState, m: &[(String, String)]) -> R {
    same!(entries(t), m, "entries");
    same!(t.header(), m.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(","), "header");
    for k in ["a", "b", "t@v", "zz", ""] {
        same!(t.get(k), m.iter().find(|e| e.0 == k).map(|e| e.1.as_str()), "get({k:?})");
    }
    let back = TraceState::from_str(&t.header());
    ensure!(matches!(&back, Ok(b) if b == t), "header {:?} parses back to {back:?}, expected {t:?}", t.header());
    let again = TraceState::from_key_value(m.to_vec());
    ensure!(matches!(&again, Ok(b) if b == t), "from_key_value gives {again:?}, expected {t:?}");
    Ok(())
}
fn trace_state_ops(r: &mut Run) {
    #[derive(Clone, Debug)]
    enum O { Ins(&'static str, &'static str), Del(&'static str) }
    let al = [
        O::Ins("a", "1"), O::Ins("a", "2 x"), O::Ins("b", "1"), O::Ins("t@v", "!~"), O::Ins("c", "3"),
        O::Ins("A", "1"), O::Ins("", "1"), O::Ins("a", "x,y"), O::Ins("b", "x=y"), O::Ins("b", "\u{e9}"), O::Ins("b", "x\n"),
        O::Del("a"), O::Del("b"), O::Del("t@v"), O::Del("zz"), O::Del("Z"),
    ];
    let starts: [&[(&str, &str)]; 4] = [&[], &[("a", "0")], &[("b", "0"), ("a", "0")], &[("x", "0"), ("t@v", "0"), ("a", "0"), ("y", "9")]];
    let d = r.pick(4, 6);
    for st in starts {
        r.sequences(&al, d, |s| format!("{st:?} {s:?}"), |s, o| {
            let mut m: Vec<(String, String)> = st.iter().map(|e| (e.0.into(), e.1.into())).collect();
            let mut t = TraceState::from_key_value(st.iter().copied()).map_err(|e| format!("{e}"))?;
            ts_agree(&t, &m)?;
            for op in s {
                let before = m.clone();
                let res = match op {
                    O::Ins(k, v) => {
                        let ok = key_ok(k) && val_ok(v);
                        if ok {
                            m.retain(|e| e.0 != *k);
                            m.insert(0, (k.to_string(), v.to_string()));
                        }
                        let x = t.insert(*k, *v);
                        ensure!(x.is_ok() == ok, "{op:?} gave {x:?}");
                        x
                    }
                    O::Del(k) => {
                        m.retain(|e| e.0 != *k);
                        let x = t.delete(*k);
                        ensure!(x.is_ok() == key_ok(k), "{op:?} gave {x:?}");
                        x
                    }
                };
                ts_agree(&t, &before).map_err(|f| Fail { msg: format!("the original changed: {}", f.msg), ..f })?;
                if let Ok(n) = res {
                    t = n;
                }
                ts_agree(&t, &m).map_err(|f| Fail { msg: format!("after {op:?}: {}", f.msg), ..f })?;
                o.step(&m);
            }
            o.outcome(&m);
            Ok(())
        });
    }
}
fn trace_state_grammar(r: &mut Run) {
    let mut keys = strings(&["a", "z", "0", "9", "A", "_", "-", "*", "/", "@", " ", ",", "=", "\u{e9}", ".", "~", "\t", "`", "{", ":"], r.pick(3, 4));
    for n in [1usize, 13, 14, 15, 16, 240, 241, 242, 254, 255, 256, 257, 300] {
        keys.push("k".repeat(n));
        keys.push(format!("{}@v", "k".repeat(n)));
        keys.push(format!("t@{}", "v".repeat(n)));
    }
    for k in &keys {
        if !r.go() {
            return;
        }
        r.case(|| format!("key {k:?}"), |o| {
            let (ok, bad) = (key_ok(k), key_bad(k));
            let t = TraceState::from_key_value([("a", "0")]).unwrap();
            for (how, res) in [("insert", t.insert(k.clone(), "v")), ("from_key_value", TraceState::from_key_value([(k, "v")]))] {
                ensure!(!(ok && res.is_err()), "{how} rejects a valid key: {res:?}");
                ensure!(!(bad && res.is_ok()), "{how} accepts an invalid key: {res:?}");
                if let Ok(s) = res {
                    same!(s.get(k), Some("v"), "{how}: value");
                }
            }
            let gone = t.delete(k.clone());
            ensure!(gone.is_ok() || !ok, "delete rejects a valid key");
            ensure!(gone.is_err() || !bad, "delete accepts an invalid key");
            o.outcome(&(ok, bad));
            Ok(())
        });
    }
    let al: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).chain(["\u{80}".into(), "\u{e9}".into(), "\u{1F600}".into()]).collect();
    let al: Vec<&str> = al.iter().map(|s| s.as_str()).collect();
    let mut vals = strings(&al, 2);
    for n in [255usize, 256, 257, 300] {
        vals.push("v".repeat(n));
        vals.push(format!("{}\u{e9}", "v".repeat(n - 2)));
    }
    for v in &vals {
        if !r.go() {
            return;
        }
        r.case(|| format!("value {v:?}"), |o| {
            let t = TraceState::from_key_value([("a", "0"), ("b", "1")]).unwrap();
            for (how, res) in [("insert", t.insert("b", v.clone())), ("from_key_value", TraceState::from_key_value([("b", v), ("a", &"0".to_string())]))] {
                ensure!(!(val_ok(v) && res.is_err()), "{how} rejects a valid value: {res:?}");
                ensure!(val_chars(v) && !v.ends_with(' ') || res.is_err(), "{how} accepts an invalid value: {res:?}");
                if let Ok(s) = res {
                    ts_agree(&s, &[("b".into(), v.clone()), ("a".into(), "0".into())])?;
                }
            }
            o.outcome(&(val_ok(v), val_chars(v)));
            Ok(())
        });
    }
}
fn parse_ts_case(h: &str, o: &mut Obs) -> R {
    let got = TraceState::from_str(h);
    // what the grammar says without room for interpretation
    let ms: Vec<&str> = h.split(',').map(|m| m.trim_matches([' ', '\t'])).collect();
    let kv: Vec<Option<(&str, &str)>> = ms.iter().map(|m| m.split_once('=')).collect();
    let good = !h.is_empty() && kv.iter().all(|m| matches!(m, Some((k, v)) if key_ok(k) && val_ok(v)));
    let bad = ms.iter().zip(&kv).any(|(m, p)| !m.is_empty() && !matches!(p, Some((k, v)) if !key_bad(k) && val_chars(v)));
    let mut seen = BTreeSet::new();
    let distinct = kv.iter().flatten().all(|(k, _)| seen.insert(*k));
    if good && distinct {
        let want: Vec<(String, String)> = kv.iter().map(|m| { let (k, v) = m.unwrap(); (k.to_string(), v.to_string()) }).collect();
        match &got {
            Ok(t) => ts_agree(t, &want)?,
            Err(e) => return Err(format!("a valid header is rejected: {e}").into()),
        }
    }
    if bad {
        ensure!(got.is_err(), "an invalid header is accepted: {got:?}");
    }
    if let Ok(t) = &got {
        ensure!(matches!(TraceState::from_str(&t.header()), Ok(b) if b == *t), "{t:?} does not parse back from its own header");
    }
    o.step(&(good, bad, got.as_ref().ok().map(entries)));
    o.outcome(&(good, bad, got.ok().map(|t| t.header())));
    Ok(())
}
fn trace_state_headers(r: &mut Run) {
    let d = r.pick(6, 7);
    r.all_sequences(&["a", "b", "=", ",", "1", " ", "@", "A"], d, |s| format!("header {:?}", s.concat()), |s, o| parse_ts_case(&s.concat(), o));
    let d = r.pick(3, 4);
    let ms = ["a=1", "b=2", "c@d=x y", " e=1", "f=1\t", "a==b", "g=", "=v", "h", "", "I=1", "j=\u{e9}", "k=1;2", "l=\u{7f}", "m=a=b", "0n=1", "a=\u{0}"];
    r.all_sequences(&ms, d, |s| format!("header {:?}", s.join(",")), |s, o| parse_ts_case(&s.join(","), o));
}

// ---------------------------------------------------------------- C23
fn ids() -> (Vec<u128>, Vec<u64>) {
    let t: Vec<u128> = vec![1, 0xf, 0x10, u64::MAX as u128, 1 << 64, (1 << 64) | 1, u128::MAX, u128::MAX - 1, 1 << 127, 0x4bf92f3577b34da6a3ce929d0e0e4736, 0x0a << 120, 0xabcdef << 32, 0xa];
    let s: Vec<u64> = vec![1, 0xf, 0x10, u32::MAX as u64, 1 << 32, u64::MAX, 1 << 63, 0x00f067aa0ba902b7, 0xabcdef, 0xa0 << 48, 0xa];
    (t, s)
}
#[derive(Debug, PartialEq, Clone)]
struct Got {
    trace: u128,
    span: u64,
    flags: u8,
    remote: bool,
    state: String,
}
fn got(cx: &Context) -> Option<Got> {
    cx.has_active_span().then(|| {
        let sp = cx.span();
        let c = sp.span_context();
        Got { trace: u128::from_be_bytes(c.trace_id().to_bytes()), span: u64::from_be_bytes(c.span_id().to_bytes()), flags: c.trace_flags().to_u8(), remote: c.is_remote(), state: c.trace_state().header() }
    })
}
fn with(t: u128, s: u64, f: u8, ts: TraceState) -> Context {
    Context::new().with_remote_span_context(SpanContext::new(TraceId::from(t), SpanId::from(s), TraceFlags::new(f), false, ts))
}
/// A context with another span and a value, to see that a bad header leaves both alone.
fn base() -> Context {
    with(0x77, 0x66, 0, TraceState::from_key_value([("base", "1")]).unwrap()).with_value(9u32)
}
fn expect(p: &dyn TextMapPropagator, h: &H, want: Option<Got>, what: &str) -> R {
    let b = base();
    let cx = p.extract_with_context(&b, h);
    same!(cx.get::<u32>(), Some(&9), "{what}: other context values");
    same!(got(&cx), want.clone().or(got(&b)), "{what}: extracted from {h:?}");
    let g = b.attach();
    let cx = p.extract(h);
    drop(g);
    same!(got(&cx), want.or(got(&base())), "{what}: extract() from {h:?}");
    Ok(())
}
fn states() -> Vec<TraceState> {
    vec![
        TraceState::NONE,
        TraceState::from_key_value([("a", "1")]).unwrap(),
        TraceState::from_key_value([("t@v", "x y!~:"), ("b", "2"), ("a", "1")]).unwrap(),
        TraceState::from_key_value((0..32).map(|i| (format!("k{i}"), "v".repeat(i + 1)))).unwrap(),
    ]
}
fn w3c_roundtrip(r: &mut Run) {
    let p = TraceContextPropagator::new();
    let (ts, ss) = ids();
    for &t in &ts {
        for &s in &ss {
            for (k, st) in states().into_iter().enumerate() {
                for f in 0..=255u8 {
                    if k > 1 && f > 3 {
                        continue;
                    }
                    r.case(|| format!("trace {t:032x} span {s:016x} flags {f:02x} state {}", st.header()), |o| {
                        let cx = with(t, s, f, st.clone());
                        let mut h = H::new();
                        p.inject_context(&cx, &mut h);
                        let g = cx.attach();
                        let mut h2 = H::new();
                        p.inject(&mut h2);
                        drop(g);
                        same!(h2, h, "inject() and inject_context()");
                        let want = format!("00-{t:032x}-{s:016x}-{:02x}", f & 1);
                        same!(h.get("traceparent"), Some(&want), "traceparent");
                        expect(&p, &h, Some(Got { trace: t, span: s, flags: f & 1, remote: true, state: st.header() }), "round trip")?;
                        o.step(&want);
                        o.outcome(&h["traceparent"]);
                        Ok(())
                    });
                }
            }
        }
    }
    // a carrier that is used again carries the last context
    let d = r.pick(3, 5);
    r.all_sequences(&[0, 1, 2, 3], d, |q| format!("contexts with states {q:?} injected one after the other"), |q, o| {
        let mut h = H::new();
        let mut map = http::HeaderMap::new();
        for (i, &k) in q.iter().enumerate() {
            let (t, s, f, st) = (7 + i as u128, 8 + i as u64, i as u8 & 1, states()[k].clone());
            let cx = with(t, s, f, st.clone());
            p.inject_context(&cx, &mut h);
            p.inject_context(&cx, &mut HeaderInjector(&mut map));
            let want = Some(Got { trace: t, span: s, flags: f, remote: true, state: st.header() });
            expect(&p, &h, want.clone(), "carrier used again")?;
            same!(got(&p.extract_with_context(&base(), &HeaderExtractor(&map))), want, "http headers used again");
            o.step(&(i, k));
        }
        o.outcome(&h.into_iter().collect::<BTreeMap<_, _>>());
        Ok(())
    });
    // an invalid span context is not propagated
    for (t, s) in [(0u128, 0u64), (0, 1), (1, 0)] {
        r.case(|| format!("invalid context {t} {s}"), |o| {
            let mut h = H::new();
            p.inject_context(&with(t, s, 1, TraceState::NONE), &mut h);
            ensure!(h.get("traceparent").is_none(), "an invalid context was injected: {h:?}");
            p.inject_context(&Context::new(), &mut h);
            ensure!(h.get("traceparent").is_none(), "no span, but injected: {h:?}");
            o.outcome(&0);
            Ok(())
        });
    }
}
fn lhex(s: &str, n: usize) -> bool {
    s.len() == n && s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b))
}
enum Verdict<V> {
    Yes(V),
    No,
    /// versions of the specification or existing tests differ
    Open,
}
/// Reference reading of a traceparent header.
fn w3c(h: &str) -> Verdict<(u128, u64, u8)> {
    let h = h.trim();
    let p: Vec<&str> = h.split('-').collect();
    if p.len() < 4 || !lhex(p[0], 2) || !lhex(p[1], 32) || !lhex(p[2], 16) || !lhex(p[3], 2) || p[0] == "ff" {
        return Verdict::No;
    }
    let (t, s, f) = (u128::from_str_radix(p[1], 16).unwrap(), u64::from_str_radix(p[2], 16).unwrap(), u8::from_str_radix(p[3], 16).unwrap());
    if t == 0 || s == 0 {
        return Verdict::No;
    }
    if p[0] == "00" {
        if p.len() > 4 {
            return if p.len() == 5 && p[4].is_empty() { Verdict::Open } else { Verdict::No };
        }
        if f > 1 {
            return Verdict::Open;
        }
    }
    Verdict::Yes((t, s, f & 1))
}
fn w3c_case(h: &str, o: &mut Obs) -> R {
    let p = TraceContextPropagator::new();
    let m = hdr(&[("traceparent", h), ("tracestate", "a=1")]);
    let v = match w3c(h) {
        Verdict::Yes((t, s, f)) => {
            expect(&p, &m, Some(Got { trace: t, span: s, flags: f, remote: true, state: "a=1".into() }), "valid header")?;
            format!("{t:x} {s:x} {f}")
        }
        Verdict::No => {
            expect(&p, &m, None, "malformed header")?;
            "rejected".into()
        }
        Verdict::Open => {
            let _ = p.extract_with_context(&base(), &m);
            "open".into()
        }
    };
    o.step(&v);
    o.outcome(&v);
    Ok(())
}
/// All single edits of a string: substitution, insertion, deletion, transposition, duplication.
fn edits(s: &str, al: &[char]) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    for i in 0..=c.len() {
        for &a in al {
            let mut v = c.clone();
            v.insert(i, a);
            out.push(v.iter().collect());
            if i < c.len() && c[i] != a {
                let mut v = c.clone();
                v[i] = a;
                out.push(v.iter().collect());
            }
        }
        if i < c.len() {
            let mut v = c.clone();
            v.remove(i);
            out.push(v.iter().collect());
            if i + 1 < c.len() && c[i] != c[i + 1] {
                let mut v = c.clone();
                v.swap(i, i + 1);
                out.push(v.iter().collect());
            }
            out.push(c[..i].iter().collect());
            out.push(c[i..].iter().collect());
        }
    }
    out
}
fn mutate(r: &mut Run, bases: &[String], al: &[char], deep: bool, f: impl Fn(&str, &mut Obs) -> R) {
    for b in bases {
        r.case(|| format!("header {b:?}"), |o| f(b, o));
        for e in edits(b, al) {
            if !r.go() {
                return;
            }
            r.case(|| format!("header {e:?}"), |o| f(&e, o));
            if deep {
                for x in edits(&e, al) {
                    r.case(|| format!("header {x:?}"), |o| f(&x, o));
                }
            }
        }
    }
}
fn w3c_mutations(r: &mut Run) {
    let al = ['0', '1', 'f', 'F', 'g', '-', ' ', '+', '\u{e9}'];
    let one: Vec<String> = vec![
        format!("00-{T}-{S}-01"), format!("00-{T}-{S}-00"), format!("01-{T}-{S}-01"), format!("fe-{T}-{S}-ff"), format!("cc-{T}-{S}-09-what-ever"), format!(" 00-{T}-{S}-01\t"),
        format!("00-{}1-{}1-01", "0".repeat(31), "0".repeat(15)), format!("00-{T}-{S}-01-"), format!("00-{}-{S}-01", T.to_uppercase()), format!("ff-{T}-{S}-01"),
        format!("00-{}-{S}-01", "0".repeat(32)), format!("00-{T}-{}-01", "0".repeat(16)), "0-1-1-1".into(), "00-1-1-01".into(), "".into(),
    ];
    mutate(r, &one, &al, false, w3c_case);
    let n = r.pick(1, 4);
    mutate(r, &one[..n], if n == 1 { &['0', 'F', '-', '+'] } else { &al }, true, w3c_case);
}
/// Headers assembled from whole fields.
fn w3c_fields(r: &mut Run) {
    let z32 = "0".repeat(32);
    let z16 = "0".repeat(16);
    let toks = ["00", "01", "ff", "-", T, S, z32.as_str(), z16.as_str(), "0", "+0", " ", "1"];
    let d = r.pick(4, 5);
    r.all_sequences(&toks, d, |s| format!("header {:?}", s.concat()), |s, o| w3c_case(&s.concat(), o));
    let f: Vec<&str> = vec!["", "00", "01", "0", "000", "fe", "ff", "FE", "+1", "09", T, S, z32.as_str(), z16.as_str(), "\u{e9}0", &T[1..], &S[1..]];
    let d = r.pick(4, 5);
    r.sequences(&f, d, |s| format!("header {:?}", s.join("-")), |s, o| w3c_case(&s.join("-"), o));
    r.sequences(&f, 1, |s| format!("version {:?}", s), |s, o| {
        for v in 0..=255u8 {
            w3c_case(&format!("{v:02x}-{T}-{S}-{}", s[0]), o)?;
            w3c_case(&format!("00-{T}-{S}-{v:02x}{}", if s[0].is_empty() { "" } else { "-" }), o)?;
        }
        Ok(())
    });
}
/// A good traceparent with any tracestate: a bad state never costs the parent, and never panics.
fn w3c_state(r: &mut Run) {
    let d = r.pick(5, 6);
    r.all_sequences(&["a", "=", ",", "1", " ", "\u{e9}", "A"], d, |s| format!("tracestate {:?}", s.concat()), |s, o| {
        let h = s.concat();
        let p = TraceContextPropagator::new();
        let cx = p.extract_with_context(&base(), &hdr(&[("traceparent", &format!("00-{T}-{S}-01")), ("tracestate", &h)]));
        let g = got(&cx).unwrap();
        same!((g.span, g.flags, g.remote), (0x00f067aa0ba902b7, 1, true), "span context");
        let want = TraceState::from_str(&h).unwrap_or_default().header();
        same!(g.state, want, "trace state");
        o.step(&want);
        o.outcome(&want);
        Ok(())
    });
    r.case(|| "no tracestate".into(), |o| {
        o.outcome(&0);
        expect(&TraceContextPropagator::new(), &hdr(&[("traceparent", &format!("00-{T}-{S}-01"))]), Some(Got { trace: u128::from_str_radix(T, 16).unwrap(), span: 0x00f067aa0ba902b7, flags: 1, remote: true, state: "".into() }), "no tracestate")?;
        expect(&TraceContextPropagator::new(), &hdr(&[("tracestate", "a=1")]), None, "no traceparent")
    });
}

// ---------------------------------------------------------------- C24
const JHEADERS: [(&str, &str); 6] = [("", "uber-trace-id"), ("  ", "uber-trace-id"), ("uber-trace-id", "uber-trace-id"), ("custom", "custom"), (" Padded-Header ", "padded-header"), ("X-Trace", "x-trace")];
fn jaeger_roundtrip(r: &mut Run) {
    let (ts, ss) = ids();
    for (name, key) in JHEADERS {
        for &t in &ts {
            for &s in &ss {
                for f in [0u8, 1, 2, 3, 4, 5, 6, 7, 0x81, 0xff, 0xfe] {
                    r.case(|| format!("header {name:?} trace {t:032x} span {s:016x} flags {f:02x}"), |o| {
                        let p = Jaeger::with_custom_header(name);
                        let mut h = H::new();
                        p.inject_context(&with(t, s, f, TraceState::from_key_value([("a", "1")]).unwrap()), &mut h);
                        same!(h.keys().collect::<Vec<_>>(), vec![key], "header names");
                        ensure!(p.fields().any(|x| x.to_lowercase() == key), "fields {:?} lack {key:?}", p.fields().collect::<Vec<_>>());
                        let cx = p.extract_with_context(&base(), &h);
                        let g = got(&cx).unwrap();
                        same!((g.trace, g.span, g.remote), (t, s, true), "ids from {h:?}");
                        same!(g.flags & 1, f & 1, "sampled flag from {h:?}");
                        if f & 1 == 1 {
                            same!(g.flags & 4, f & 4, "debug flag from {h:?}");
                        }
                        if key == "uber-trace-id" {
                            same!(got(&Jaeger::default().extract_with_context(&base(), &h)), Some(g.clone()), "default propagator");
                        } else {
                            same!(got(&Jaeger::new().extract_with_context(&base(), &h)), got(&base()), "a propagator for another header");
                        }
                        o.step(&format!("{g:?}"));
                        o.outcome(&h[key]);
                        Ok(())
                    });
                }
            }
        }
    }
    let d = r.pick(3, 4);
    r.all_sequences(&[0u8, 1, 4, 5], d, |q| format!("contexts with flags {q:?} injected into the same carrier"), |q, o| {
        let p = Jaeger::new();
        let mut h = H::new();
        for (i, &f) in q.iter().enumerate() {
            p.inject_context(&with(7 + i as u128, 8, f, TraceState::NONE), &mut h);
            let mut fresh = H::new();
            p.inject_context(&with(7 + i as u128, 8, f, TraceState::NONE), &mut fresh);
            same!(got(&p.extract_with_context(&base(), &h)), got(&p.extract_with_context(&base(), &fresh)), "carrier used again");
            o.step(&(i, f));
        }
        o.outcome(&h.into_iter().collect::<BTreeMap<_, _>>());
        Ok(())
    });
    for (t, s) in [(0u128, 0u64), (0, 1), (1, 0)] {
        r.case(|| format!("invalid context {t} {s}"), |o| {
            let mut h = H::new();
            Jaeger::new().inject_context(&with(t, s, 1, TraceState::NONE), &mut h);
            ensure!(h.is_empty(), "an invalid context was injected: {h:?}");
            o.outcome(&0);
            Ok(())
        });
    }
}
fn jaeger(h: &str) -> Verdict<(u128, u64, u8)> {
    let dec = if h.contains(':') { h.to_string() } else { h.replace("%3A", ":") };
    let p: Vec<&str> = dec.split(':').collect();
    let hex = |s: &str, n: usize| !s.is_empty() && s.len() <= n && s.bytes().all(|b| b.is_ascii_hexdigit());
    if p.len() != 4 || !hex(p[0], 32) || !hex(p[1], 16) || !hex(p[3], 2) {
        return Verdict::No;
    }
    let (t, s) = (u128::from_str_radix(p[0], 16).unwrap(), u64::from_str_radix(p[1], 16).unwrap());
    if t == 0 || s == 0 {
        return Verdict::No;
    }
    // hexadecimal or decimal? Readers differ, so flags beyond one digit are left open
    if p[3].len() > 1 || !p[3].bytes().all(|b| b.is_ascii_digit()) {
        return Verdict::Open;
    }
    let f = u8::from_str_radix(p[3], 16).unwrap();
    Verdict::Yes((t, s, if f & 1 == 0 { 0 } else { f & 3 }))
}
fn jaeger_case(h: &str, o: &mut Obs) -> R {
    let p = Jaeger::new();
    let m = hdr(&[("uber-trace-id", h)]);
    let v = match jaeger(h) {
        Verdict::Yes((t, s, f)) => {
            let flags = [0, 1, 0, 5][f as usize];
            expect(&p, &m, Some(Got { trace: t, span: s, flags, remote: true, state: "".into() }), "valid header")?;
            format!("{t:x} {s:x} {f}")
        }
        Verdict::No => {
            expect(&p, &m, None, "malformed header")?;
            "rejected".into()
        }
        Verdict::Open => {
            let _ = p.extract_with_context(&base(), &m);
            "open".into()
        }
    };
    o.step(&v);
    o.outcome(&v);
    Ok(())
}
fn jaeger_mutations(r: &mut Run) {
    let al = ['0', '1', 'f', 'F', 'g', ':', ' ', '+', '-', '%', '\u{e9}'];
    let b: Vec<String> = vec![
        format!("{T}:{S}:0:1"), format!("{T}:{S}:0:3"), format!("{T}:{S}:0:0"), "4d0000000000000016:17c29:0:1".into(), "1:1:0:1".into(), "%3A".into(), "1%3A2%3A0%3A1".into(), format!("{T}%3A{S}%3A0%3A1"),
        format!("{}:{S}:0:1", "0".repeat(32)), format!("{T}:{}:0:1", "0".repeat(16)), format!("{T}:0:0:1"), format!("{T}:{S}::1"), format!("{T}:{S}:{S}:2"), format!("{}:{S}:0:1", "1".repeat(33)), format!("{T}:{}:0:1", "1".repeat(17)), "".into(), ":::".into(), "::0:1".into(),
    ];
    mutate(r, &b, &al, false, jaeger_case);
    mutate(r, &["1:1:0:1".to_string(), "1%3A2%3A0%3A1".to_string(), format!("{T}:{S}:0:1")][..r.pick(2, 3)], &al, true, jaeger_case);
    for f in 0..=0xfffu32 {
        for s in [format!("{f}"), format!("{f:x}"), format!("{f:02X}")] {
            r.case(|| format!("flags {s}"), |o| jaeger_case(&format!("{T}:{S}:0:{s}"), o));
        }
    }
    for n in 0..=34usize {
        for m in 0..=18usize {
            for c in ["1", "0", "f", "F"] {
                r.case(|| format!("ids of {n} and {m} {c}"), |o| jaeger_case(&format!("{}:{}:0:1", c.repeat(n), c.repeat(m)), o));
            }
        }
    }
}
/// Baggage headers become trace state entries; malformed ones never panic and never corrupt the ids.
fn jaeger_baggage(r: &mut Run) {
    let items = [("uberctx-a", "1"), ("uberctx-b", "x y"), ("uberctx-", "e"), ("other", "z"), ("uberctx-A", "1"), ("uberctx-c", "p,q"), ("uberctx-\u{e9}", "1"), ("uber-trace-idx", "1"), ("ctx-a", "1")];
    for (prefix, real) in [("", "uberctx-"), (" ", "uberctx-"), ("ctx-", "ctx-"), (" ctx- ", "ctx-")] {
        for sub in subsets(items.len()) {
            r.case(|| format!("prefix {prefix:?} headers {:?}", sub.iter().map(|&i| items[i]).collect::<Vec<_>>()), |o| {
                let p = Jaeger::with_custom_header_and_baggage("", prefix);
                let mut h: H = sub.iter().map(|&i| (items[i].0.to_string(), items[i].1.to_string())).collect();
                h.insert("uber-trace-id".into(), format!("{T}:{S}:0:1"));
                let mine: BTreeMap<String, String> = sub.iter().map(|&i| items[i]).filter(|i| i.0.starts_with(real)).map(|(k, v)| (k.into(), v.into())).collect();
                let ok = mine.iter().all(|(k, v)| key_ok(k) && val_ok(v));
                let cx = p.extract_with_context(&base(), &h);
                let g = got(&cx).unwrap();
                if ok {
                    same!((g.trace, g.span, g.flags, g.remote), (u128::from_str_radix(T, 16).unwrap(), 0x00f067aa0ba902b7, 1, true), "span context");
                    let sp = cx.span();
                    same!(entries(sp.span_context().trace_state()).into_iter().collect::<BTreeMap<_, _>>(), mine, "baggage entries");
                } else {
                    ensure!(Some(&g) == got(&base()).as_ref() || (g.trace, g.span) == (u128::from_str_radix(T, 16).unwrap(), 0x00f067aa0ba902b7), "neither the old nor the received ids: {g:?}");
                }
                o.step(&(prefix, &mine));
                o.outcome(&mine);
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------- C25
fn enc(i: usize) -> B3Encoding {
    [B3Encoding::UnSpecified, B3Encoding::MultipleHeader, B3Encoding::SingleHeader, B3Encoding::SingleAndMultiHeader][i].clone()
}
const ENC: [&str; 4] = ["unspecified", "multiple", "single", "single and multiple"];
fn b3_decision(f: u8) -> &'static str {
    if f & 4 != 0 { "debug" } else if f & 2 != 0 { "deferred" } else if f & 1 != 0 { "sampled" } else { "not sampled" }
}
fn b3_roundtrip(r: &mut Run) {
    let (ts, ss) = ids();
    for e in 0..4 {
        for &t in &ts {
            for &s in &ss {
                // not sampled, sampled, deferred, debug, debug and sampled
                for f in [0u8, 1, 2, 4, 5] {
                    r.case(|| format!("{} trace {t:032x} span {s:016x} {}", ENC[e], b3_decision(f)), |o| {
                        let p = B3::with_encoding(enc(e));
                        let mut h = H::new();
                        p.inject_context(&with(t, s, f, TraceState::NONE), &mut h);
                        let (single, multi) = (h.contains_key("b3"), h.contains_key("x-b3-traceid"));
                        same!((single, multi), (e >= 2, e != 2), "headers written: {:?}", h);
                        let fields: BTreeSet<&str> = p.fields().collect();
                        ensure!(h.keys().all(|k| fields.contains(k.as_str())), "undeclared header in {h:?}, fields {fields:?}");
                        // any B3 extractor of the same or the combined encoding understands it
                        for x in [e, 3] {
                            let cx = B3::with_encoding(enc(x)).extract_with_context(&base(), &h);
                            let g = got(&cx).unwrap();
                            same!((g.trace, g.span, g.remote), (t, s, true), "ids from {h:?} read as {}", ENC[x]);
                            same!(b3_decision(g.flags), b3_decision(f), "decision from {h:?} read as {}", ENC[x]);
                            o.step(&(x, g.flags));
                        }
                        o.outcome(&h.into_iter().collect::<BTreeMap<_, _>>());
                        Ok(())
                    });
                }
            }
        }
        for (t, s) in [(0u128, 0u64), (0, 1), (1, 0)] {
            r.case(|| format!("{} invalid context {t} {s}", ENC[e]), |o| {
                let p = B3::with_encoding(enc(e));
                for f in [0, 1] {
                    let mut h = H::new();
                    p.inject_context(&with(t, s, f, TraceState::NONE), &mut h);
                    same!(got(&p.extract_with_context(&base(), &h)), got(&base()), "context from {h:?}");
                }
                o.outcome(&0);
                Ok(())
            });
        }
    }
}
fn b3_ids(t: &str, s: &str) -> Option<(u128, u64)> {
    if !(lhex(t, 32) || lhex(t, 16)) || !lhex(s, 16) {
        return None;
    }
    let (t, s) = (u128::from_str_radix(t, 16).unwrap(), u64::from_str_radix(s, 16).unwrap());
    (t != 0 && s != 0).then_some((t, s))
}
/// Some(None): sampling decision open
fn b3_single(h: &str, e: usize) -> Option<(u128, u64, Option<&'static str>)> {
    let p: Vec<&str> = h.split('-').collect();
    if p.len() < 2 || p.len() > 4 {
        return None;
    }
    let (t, s) = b3_ids(p[0], p[1])?;
    let d = match p.get(2) {
        None => Some("deferred"),
        Some(&"0") => Some("not sampled"),
        Some(&"1") => Some("sampled"),
        Some(&"d") if e >= 2 => Some("debug"),
        // lenient readers
        Some(&"d" | &"true" | &"false") => None,
        _ => return None,
    };
    if p.len() == 4 && !lhex(p[3], 16) {
        return None;
    }
    Some((t, s, d))
}
fn b3_expect(e: usize, h: &H, want: Option<(u128, u64, Option<&'static str>)>, o: &mut Obs) -> R {
    let p = B3::with_encoding(enc(e));
    let cx = p.extract_with_context(&base(), h);
    same!(cx.get::<u32>(), Some(&9), "other context values");
    let g = got(&cx).unwrap();
    let v = match want {
        None => {
            same!(Some(g), got(&base()), "{}: malformed {h:?}", ENC[e]);
            "rejected".to_string()
        }
        Some((t, s, Some(d))) => {
            same!((g.trace, g.span, g.remote, b3_decision(g.flags)), (t, s, true, d), "{}: extracted from {h:?}", ENC[e]);
            format!("{t:x} {s:x} {d}")
        }
        Some((t, s, None)) => {
            ensure!(Some(&g) == got(&base()).as_ref() || (g.trace, g.span) == (t, s), "{}: ids from {h:?}: {g:?}", ENC[e]);
            "open".into()
        }
    };
    o.step(&(e, &v));
    o.outcome(&(e, v));
    Ok(())
}
fn b3_single_mutations(r: &mut Run) {
    let al = ['0', '1', 'd', 'f', 'F', 'g', '-', ' ', '+', '\u{e9}'];
    let short = &T[16..];
    let b: Vec<String> = vec![
        format!("{T}-{S}-1"), format!("{T}-{S}-0"), format!("{T}-{S}-d"), format!("{T}-{S}"), format!("{T}-{S}-1-{S}"), format!("{short}-{S}-1"), format!("{T}-{S}-true"), "0".into(), "1".into(), "-".into(), "".into(),
        format!("{}-{S}-1", "0".repeat(32)), format!("{}-{S}-1", "0".repeat(16)), format!("{T}-{}-1", "0".repeat(16)), format!("{}-{S}-1", T.to_uppercase()), format!("{T}-{S}-1-{S}-x"), format!("{}-{S}", &T[1..]), format!("+{}-{S}-1", &T[1..]),
    ];
    for e in 0..4 {
        mutate(r, &b, &al, false, |h, o| b3_expect(e, &hdr(&[("b3", h)]), b3_single(h, e), o));
    }
    let deep = [format!("{short}-{S}-1"), format!("{T}-{S}-d-{S}")];
    for e in if r.thorough { vec![0, 1, 2, 3] } else { vec![2] } {
        mutate(r, &deep[..r.pick(1, 2)], &['0', '1', 'F', '-', '+'], true, |h, o| b3_expect(e, &hdr(&[("b3", h)]), b3_single(h, e), o));
    }
}
/// Every combination of present, absent, valid and malformed multi headers, with and without a single header.
fn b3_headers(r: &mut Run) {
    let up = T.to_uppercase();
    let plus = format!("+{}", &S[1..]);
    let tids = [None, Some(T), Some(&T[16..]), Some("0"), Some(&up), Some("00000000000000000000000000000000"), Some(&T[1..])];
    let sids = [None, Some(S), Some(&S[1..]), Some("0000000000000000"), Some(&plus), Some("zz")];
    let sampled = [None, Some("0"), Some("1"), Some("d"), Some("true"), Some("2"), Some(""), Some("false"), Some("10")];
    let debug = [None, Some("1"), Some("0"), Some("2"), Some("")];
    let parent = [None, Some(S), Some("x")];
    let sv = [format!("{}-{}-1", &T[16..], "00000000000000aa"), format!("{T}-{S}-q"), "0".to_string(), "00000000000000bb-00000000000000aa".to_string(), format!("{}-{S}-1", "0".repeat(32))];
    let singles: Vec<Option<&str>> = std::iter::once(None).chain(sv.iter().map(|s| Some(s.as_str()))).collect();
    product(&[4, tids.len(), sids.len(), sampled.len(), debug.len(), parent.len(), singles.len()], |ix| {
        let e = ix[0];
        r.case(|| format!("{} {:?} {:?} {:?} {:?} {:?} b3 {:?}", ENC[e], tids[ix[1]], sids[ix[2]], sampled[ix[3]], debug[ix[4]], parent[ix[5]], singles[ix[6]]), |o| {
            let mut h = H::new();
            for (k, v) in [("x-b3-traceid", tids[ix[1]]), ("x-b3-spanid", sids[ix[2]]), ("x-b3-sampled", sampled[ix[3]]), ("x-b3-flags", debug[ix[4]]), ("x-b3-parentspanid", parent[ix[5]]), ("b3", singles[ix[6]])] {
                if let Some(v) = v {
                    h.insert(k.into(), v.into());
                }
            }
            let multi = || {
                let (t, s) = b3_ids(tids[ix[1]].unwrap_or(""), sids[ix[2]].unwrap_or(""))?;
                let d = match (debug[ix[4]], sampled[ix[3]]) {
                    (Some("1"), _) => Some("debug"),
                    (_, None) => Some("deferred"),
                    (_, Some("0")) => Some("not sampled"),
                    (_, Some("1")) => Some("sampled"),
                    (_, Some("true" | "false" | "d")) => None,
                    _ => return None,
                };
                Some((t, s, d))
            };
            // a valid single header is preferred, an invalid one never hides valid multiple headers
            let want = singles[ix[6]].and_then(|s| b3_single(s, e)).or_else(multi);
            b3_expect(e, &h, want, o)
        });
    });
}

// ---------------------------------------------------------------- C26
/// Appends its letter to what it sees, and writes it to its header.
#[derive(Debug)]
struct Probe(&'static str, [String; 1]);
#[derive(Clone, Default, PartialEq, Debug)]
struct Seen(String);
impl TextMapPropagator for Probe {
    fn inject_context(&self, cx: &Context, i: &mut dyn Injector) {
        if let Some(s) = cx.get::<Seen>() {
            i.set(&self.1[0], format!("{}{}", s.0, self.0));
        }
    }
    fn extract_with_context(&self, cx: &Context, e: &dyn Extractor) -> Context {
        match e.get(&self.1[0]) {
            Some(v) if v != "bad" => cx.with_value(Seen(format!("{}{}({v})", cx.get::<Seen>().cloned().unwrap_or_default().0, self.0))),
            _ => cx.clone(),
        }
    }
    fn fields(&self) -> FieldIter<'_> {
        FieldIter::new(&self.1)
    }
}
const NP: usize = 7;
/// for injection also a propagator whose header name was given with spaces around it
const NPI: usize = 8;
fn part(i: usize) -> Box<dyn TextMapPropagator + Send + Sync> {
    match i {
        0 => Box::new(TraceContextPropagator::new()),
        1 => Box::new(BaggagePropagator::new()),
        2 => Box::new(Jaeger::new()),
        3 => Box::new(B3::with_encoding(B3Encoding::SingleHeader)),
        4 => Box::new(B3::with_encoding(B3Encoding::MultipleHeader)),
        5 => Box::new(Probe("p", ["probe".into()])),
        7 => Box::new(Jaeger::with_custom_header(" x-Trace\t")),
        _ => Box::new(Probe("q", ["probe".into()])),
    }
}
fn all(cx: &Context) -> String {
    let mut b: Vec<String> = cx.baggage().iter().map(|(k, v)| format!("{k}={v:?}")).collect();
    b.sort();
    format!("{:?} {b:?} {:?} {:?}", got(cx), cx.get::<Seen>(), cx.get::<u32>())
}
struct Rec(Vec<(String, String)>);
impl Injector for Rec {
    fn set(&mut self, k: &str, v: String) {
        self.0.push((k.into(), v));
    }
}
/// All ordered selections of the parts, every combination of valid, invalid and absent headers.
fn composite(r: &mut Run) {
    let n = r.pick(3, 4);
    let mut orders = vec![vec![]];
    for sub in subsets(NP) {
        if !sub.is_empty() && sub.len() <= n {
            orders.extend(perms(&sub));
        }
    }
    let groups: [[Option<Vec<(&str, String)>>; 3]; 6] = [
        [None, Some(vec![("traceparent", format!("00-{}-{}-01", "a".repeat(32), "1".repeat(16))), ("tracestate", "w=1".into())]), Some(vec![("traceparent", "00-bad".into()), ("tracestate", "w=1".into())])],
        [None, Some(vec![("baggage", "k=v;m,l=2".into())]), Some(vec![("baggage", "k".into())])],
        [None, Some(vec![("uber-trace-id", format!("{}:2222:0:3", "b".repeat(32)))]), Some(vec![("uber-trace-id", "0:0:0:1".into())])],
        [None, Some(vec![("b3", format!("{}-{}-d", "c".repeat(32), "3".repeat(16)))]), Some(vec![("b3", "0".into())])],
        [None, Some(vec![("x-b3-traceid", "d".repeat(32)), ("x-b3-spanid", "4".repeat(16)), ("x-b3-sampled", "0".into())]), Some(vec![("x-b3-traceid", "x".into())])],
        [None, Some(vec![("probe", "1".into())]), Some(vec![("probe", "bad".into())])],
    ];
    let bases = [Context::new(), base().with_value(Seen("s".into())).with_baggage(vec![KeyValue::new("old", "1")])];
    for ord in &orders {
        for bi in 0..2 {
            product(&[3; 6], |ix| {
                r.case(|| format!("parts {ord:?} base {bi} headers {ix:?} (0 absent, 1 valid, 2 invalid)"), |o| {
                    let c = TextMapCompositePropagator::new(ord.iter().map(|&i| part(i)).collect());
                    let mut h = H::new();
                    for (g, &k) in ix.iter().enumerate() {
                        for (k, v) in groups[g][k].iter().flatten() {
                            h.insert(k.to_string(), v.clone());
                        }
                    }
                    let want = ord.iter().fold(bases[bi].clone(), |cx, &i| part(i).extract_with_context(&cx, &h));
                    let res = c.extract_with_context(&bases[bi], &h);
                    same!(all(&res), all(&want), "extracted context");
                    // a part that does nothing changes nothing, wherever it is
                    if ord.len() < 3 {
                        for at in 0..=ord.len() {
                            let mut parts: Vec<Box<dyn TextMapPropagator + Send + Sync>> = ord.iter().map(|&i| part(i)).collect();
                            parts.insert(at, Box::new(NoopTextMapPropagator::new()));
                            let _g = Context::new().with_value(Seen("current".into())).attach();
                            same!(all(&TextMapCompositePropagator::new(parts).extract_with_context(&bases[bi], &h)), all(&want), "extracted with a part that does nothing at {at}");
                        }
                    }
                    // absent or invalid headers keep what the base provides
                    for (g, &k) in ix.iter().enumerate() {
                        if g == 5 && k != 1 {
                            same!(res.get::<Seen>(), bases[bi].get::<Seen>(), "value without a valid header for it");
                        }
                        if g == 1 && k == 0 {
                            same!(res.baggage().len(), bases[bi].baggage().len(), "baggage without a header");
                        }
                    }
                    if ord.iter().all(|&i| match i { 0 => ix[0] != 1, 2 => ix[2] != 1, 3 | 4 => ix[3] != 1 && ix[4] != 1, _ => true }) {
                        same!(got(&res), got(&bases[bi]), "span without a valid header");
                    }
                    o.step(&all(&want));
                    o.outcome(&all(&res));
                    Ok(())
                });
            });
        }
    }
}
fn composite_inject(r: &mut Run) {
    let n = r.pick(5, 7);
    let mut orders = vec![vec![]];
    for sub in subsets(NPI) {
        if !sub.is_empty() && sub.len() <= n {
            orders.extend(perms(&sub));
        }
    }
    let cxs = [Context::new(), with(5, 6, 1, states()[2].clone()), with(5, 6, 4, TraceState::NONE).with_baggage(vec![KeyValue::new("k", "v")]), Context::new().with_value(Seen("s".into())), with(5, 0, 1, TraceState::NONE).with_value(Seen("t".into()))];
    for ord in &orders {
        for (ci, cx) in cxs.iter().enumerate() {
            r.case(|| format!("parts {ord:?} context {ci}"), |o| {
                let c = TextMapCompositePropagator::new(ord.iter().map(|&i| part(i)).collect());
                let (mut a, mut b) = (Rec(vec![]), Rec(vec![]));
                c.inject_context(cx, &mut a);
                let mut fields = BTreeSet::new();
                for &i in ord {
                    let p = part(i);
                    let mut one = Rec(vec![]);
                    p.inject_context(cx, &mut one);
                    let f: BTreeSet<String> = p.fields().map(|s| s.to_string()).collect();
                    ensure!(one.0.iter().all(|(k, _)| f.contains(k)), "part {i} writes {:?} but declares {f:?}", one.0);
                    b.0.extend(one.0);
                    fields.extend(f);
                }
                same!(a.0, b.0, "headers set, in order");
                same!(c.fields().map(|s| s.to_string()).collect::<BTreeSet<_>>(), fields, "declared fields");
                same!(c.fields().count(), fields.len(), "declared fields without repetition");
                // through HTTP headers the same arrives
                let mut map = http::HeaderMap::new();
                c.inject_context(cx, &mut HeaderInjector(&mut map));
                let mut h = H::new();
                c.inject_context(cx, &mut h);
                same!(map.len(), h.len(), "headers in the http map");
                let via_http = c.extract_with_context(&Context::new(), &HeaderExtractor(&map));
                same!(all(&via_http), all(&c.extract_with_context(&Context::new(), &h)), "context through http headers");
                // a nested composite behaves like its parts
                if ord.len() > 1 {
                    let nested = TextMapCompositePropagator::new(vec![
                        Box::new(TextMapCompositePropagator::new(ord[..1].iter().map(|&i| part(i)).collect())),
                        Box::new(TextMapCompositePropagator::new(ord[1..].iter().map(|&i| part(i)).collect())),
                    ]);
                    let mut x = Rec(vec![]);
                    nested.inject_context(cx, &mut x);
                    same!(x.0, a.0, "nested composite");
                    same!(all(&nested.extract_with_context(&Context::new(), &h)), all(&via_http), "nested composite extraction");
                }
                o.step(&a.0);
                o.outcome(&a.0);
                Ok(())
            });
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![
        family("C22", "trace_state_ops", trace_state_ops),
        family("C22", "trace_state_grammar", trace_state_grammar),
        family("C22", "trace_state_headers", trace_state_headers),
        family("C23", "w3c_roundtrip", w3c_roundtrip),
        family("C23", "w3c_mutations", w3c_mutations),
        family("C23", "w3c_fields", w3c_fields),
        family("C23", "w3c_state", w3c_state),
        family("C24", "jaeger_roundtrip", jaeger_roundtrip),
        family("C24", "jaeger_mutations", jaeger_mutations),
        family("C24", "jaeger_baggage", jaeger_baggage),
        family("C25", "b3_roundtrip", b3_roundtrip),
        family("C25", "b3_single_mutations", b3_single_mutations),
        family("C25", "b3_headers", b3_headers),
        family("C26", "composite_extract", composite),
        family("C26", "composite_inject", composite_inject),
    ]
}
