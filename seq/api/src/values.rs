//! C57: identifiers, keys, values and scopes mean the same however they are written, stored and converted.
use bmc::{ensure, family, hash as bhash, same, strings, Family, Obs, Run, R};
use opentelemetry::logs::AnyValue;
use opentelemetry::trace::{SpanContext, SpanId, TraceFlags, TraceId, TraceState};
use opentelemetry::{Array, InstrumentationScope, Key, KeyValue, StringValue, Value};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

// ---------------------------------------------------------------- identifiers
/// Big-endian numbers with one bit set or clear, and with one byte of any value among zeros and ones.
fn numbers(bytes: usize) -> Vec<u128> {
    let all = if bytes == 16 { u128::MAX } else { (1 << (bytes * 8)) - 1 };
    let mut v = vec![0, all, 0x0123_4567_89ab_cdef_0123_4567_89ab_cdef & all, 0xfedc_ba98_7654_3210_fedc_ba98_7654_3210 & all];
    for b in 0..bytes * 8 {
        v.extend([1 << b, all & !(1 << b)]);
    }
    for p in 0..bytes {
        for b in 0..=255u128 {
            v.extend([b << (p * 8), (all & !(255 << (p * 8))) | b << (p * 8)]);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}
/// The digits of a number, written without the formatting of the standard library.
fn digits(v: u128, n: usize) -> String {
    (0..n).rev().map(|i| b"0123456789abcdef"[((v >> (4 * i)) & 15) as usize] as char).collect()
}
fn one_id<I: Copy + Eq + Hash + std::fmt::Debug + std::fmt::Display + std::fmt::LowerHex>(
    v: u128, n: usize, id: I, make: impl Fn(&[u8]) -> I, bytes: impl Fn(I) -> Vec<u8>, hex: impl Fn(&str) -> Option<I>, o: &mut Obs,
) -> R {
    let want: Vec<u8> = (0..n).rev().map(|i| (v >> (8 * i)) as u8).collect();
    same!(bytes(id), want, "its bytes");
    same!(make(&want), id, "made of its bytes");
    let text = digits(v, 2 * n);
    same!(id.to_string(), text, "written out");
    same!(format!("{id:?}"), text, "debugged");
    let short = text.trim_start_matches('0');
    let short = if short.is_empty() { "0" } else { short };
    same!(format!("{id:x}"), short, "in hexadecimal");
    same!(format!("{id:040x}"), format!("{short:0>40}"), "padded");
    for t in [text.clone(), text.to_uppercase(), short.to_string()] {
        same!(hex(&t), Some(id), "read from {t:?}");
    }
    same!(h(&make(&want)), h(&id), "hash");
    o.step(&text);
    o.outcome(&short.len());
    Ok(())
}
fn ids(r: &mut Run) {
    for v in numbers(16) {
        r.case(|| format!("trace id {v:#x}"), |o| {
            let id = TraceId::from(v);
            same!(id == TraceId::INVALID, v == 0, "invalid");
            one_id(v, 16, id, |b| TraceId::from_bytes(b.try_into().unwrap()), |i| i.to_bytes().to_vec(), |t| TraceId::from_hex(t).ok(), o)
        });
    }
    for v in numbers(8) {
        r.case(|| format!("span id {v:#x}"), |o| {
            let id = SpanId::from(v as u64);
            same!(id == SpanId::INVALID, v == 0, "invalid");
            one_id(v, 8, id, |b| SpanId::from_bytes(b.try_into().unwrap()), |i| i.to_bytes().to_vec(), |t| SpanId::from_hex(t).ok(), o)
        });
    }
}
/// Texts that are and are not identifiers. Digits beyond the width, if they are zeros, may be refused or not.
fn id_texts(r: &mut Run) {
    let al = ["0", "1", "9", "a", "f", "A", "F", "g", "G", "+", "-", " ", "x", "_", "\u{e9}", "\u{ff11}", "\0", "/", ":", "@", "`"];
    let mut l: Vec<String> = strings(&al, r.pick(3, 4));
    for n in [15, 16, 17, 31, 32, 33] {
        for (a, b) in [("0", ""), ("f", ""), ("0", "1"), ("1", "0"), ("f", "+"), ("+", "f"), ("-", "0"), ("0", "g"), ("7", "\u{e9}")] {
            let c = a.repeat(n - 1 + b.is_empty() as usize) + b;
            l.push(c);
        }
    }
    for t in l {
        r.case(|| format!("{t:?}"), |o| {
            let hexes = !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b) || (b'A'..=b'F').contains(&b));
            let core = t.trim_start_matches('0');
            let value = hexes.then(|| core.bytes().take(32).fold(0u128, |a, b| a << 4 | (b as char).to_digit(16).unwrap() as u128));
            for (n, got) in [(32, TraceId::from_hex(&t).ok().map(|i| u128::from_be_bytes(i.to_bytes()))), (16, SpanId::from_hex(&t).ok().map(|i| u64::from_be_bytes(i.to_bytes()) as u128))] {
                let want = value.filter(|_| core.len() <= n);
                if t.len() <= n || want.is_none() {
                    same!(got, want, "{t:?} read as an identifier of {n} digits");
                } else {
                    ensure!(got.is_none() || got == want, "{t:?} read as {got:?}");
                }
                o.outcome(&(got.is_some(), n));
            }
            o.step(&t);
            Ok(())
        });
    }
}
fn flags(r: &mut Run) {
    for a in 0..=255u8 {
        r.case(|| format!("flags {a:#04x}"), |o| {
            let f = TraceFlags::new(a);
            same!(f.to_u8(), a, "value");
            same!(f.is_sampled(), a & 1 == 1, "sampled");
            same!(f.with_sampled(true).to_u8(), a | 1, "with the flag");
            same!(f.with_sampled(false).to_u8(), a & 254, "without the flag");
            same!((!f).to_u8(), !a, "negated");
            same!(format!("{f:x}"), digits(a as u128, 2).trim_start_matches('0').to_string() + if a == 0 { "0" } else { "" }, "in hexadecimal");
            same!(format!("{f:02x}"), digits(a as u128, 2), "in two digits");
            for b in 0..=255u8 {
                let g = TraceFlags::new(b);
                same!((f & g).to_u8(), a & b, "and {b:#x}");
                same!((f | g).to_u8(), a | b, "or {b:#x}");
                same!(f == g, a == b, "equal to {b:#x}");
            }
            for (t, s) in [(0u128, 0u64), (0, 1), (1, 0), (1, 1), (1 << 127, 1 << 63), (u128::MAX, u64::MAX)] {
                for remote in [false, true] {
                    let st = TraceState::from_key_value([("k", "v")]).unwrap();
                    let c = SpanContext::new(TraceId::from(t), SpanId::from(s), f, remote, st.clone());
                    same!((c.trace_id(), c.span_id(), c.trace_flags(), c.is_remote(), c.trace_state().clone()), (TraceId::from(t), SpanId::from(s), f, remote, st), "span context");
                    same!(c.is_valid(), t != 0 && s != 0, "validity of {c:?}");
                    same!(c.is_sampled(), a & 1 == 1, "sampling of {c:?}");
                    same!(c.clone(), c, "a copy");
                    let d = SpanContext::new(TraceId::from(1), SpanId::from(1), TraceFlags::new(1), true, TraceState::default());
                    ensure!(c != d, "{c:?} and {d:?} are the same");
                }
            }
            o.step(&a);
            o.outcome(&(a & 1));
            Ok(())
        });
    }
    r.case(|| "empty span context".into(), |o| {
        let c = SpanContext::empty_context();
        ensure!(!c.is_valid() && !c.is_remote() && !c.is_sampled() && c.trace_state().header().is_empty() && c == SpanContext::NONE, "{c:?}");
        o.step(&0);
        o.outcome(&2);
        Ok(())
    });
}

// ---------------------------------------------------------------- texts
fn keys_of(s: &str) -> Vec<Key> {
    let st = leak(s);
    vec![Key::from_static_str(st), Key::from(st), Key::new(s.to_string()), Key::new(Arc::<str>::from(s)), Key::from(Cow::Borrowed(st)), Key::from(Cow::<'static, str>::Owned(s.to_string()))]
}
fn texts_of(s: &str) -> Vec<StringValue> {
    let st = leak(s);
    vec![StringValue::from(st), StringValue::from(s.to_string()), StringValue::from(Arc::<str>::from(s)), StringValue::from(Cow::Borrowed(st)), StringValue::from(Cow::<'static, str>::Owned(s.to_string())), StringValue::from(Value::from(st))]
}
fn values_of(s: &str) -> Vec<Value> {
    let st = leak(s);
    let mut v = vec![Value::from(st), Value::from(s.to_string()), Value::from(Arc::<str>::from(s)), Value::from(Cow::Borrowed(st)), Value::from(Cow::<'static, str>::Owned(s.to_string()))];
    v.extend(texts_of(s).into_iter().map(Value::from));
    v
}
fn alphabet(n: usize) -> Vec<String> {
    strings(&["a", "b", "B", "\u{e9}", "\0", "\"", " "], n)
}
fn texts(r: &mut Run) {
    let all = alphabet(r.pick(2, 3));
    for a in &all {
        r.case(|| format!("{a:?}"), |o| {
            let (ka, ta, va) = (keys_of(a), texts_of(a), values_of(a));
            for k in &ka {
                same!(k.as_str(), a, "key");
                same!(AsRef::<str>::as_ref(k), a, "key as text");
                same!(String::from(k.clone()), *a, "key into text");
                same!(k.to_string(), *a, "key written out");
                // what `Borrow<str>` promises
                same!(h(k), h(&a.as_str()), "hash of a key and of its text");
            }
            for t in &ta {
                same!(t.as_str(), a, "text");
                same!(AsRef::<str>::as_ref(t), a, "text as text");
                same!(String::from(t.clone()), *a, "text into text");
                same!(t.to_string(), *a, "text written out");
            }
            for v in &va {
                same!(v.as_str(), a.as_str(), "value");
                same!(v.to_string(), *a, "value written out");
                ensure!(matches!(v, Value::String(s) if s.as_str() == a), "a text became {v:?}");
            }
            let st = leak(a);
            for v in [AnyValue::from(st), AnyValue::from(a.clone()), AnyValue::from(Cow::Borrowed(st)), AnyValue::from(Cow::<'static, str>::Owned(a.clone())), AnyValue::from(ta[2].clone())] {
                ensure!(matches!(&v, AnyValue::String(s) if s.as_str() == a), "{a:?} became {v:?}");
            }
            ensure!(matches!(AnyValue::from(a.as_bytes()), AnyValue::Bytes(b) if *b == a.as_bytes()), "bytes of {a:?}");
            for b in &all {
                let (kb, tb, vb) = (keys_of(b), texts_of(b), values_of(b));
                let eq = a == b;
                let mut hm = HashMap::new();
                let mut bm = BTreeMap::new();
                for x in &ka {
                    hm.insert(x.clone(), 1);
                    bm.insert(x.clone(), 1);
                    for y in &kb {
                        ensure!((x == y) == eq && x.cmp(y) == a.cmp(b) && x.partial_cmp(y) == Some(a.cmp(b)), "keys {x:?} and {y:?}: {} {:?}", x == y, x.cmp(y));
                        ensure!(!eq || h(x) == h(y), "hashes of {x:?} and {y:?}");
                    }
                }
                ensure!(hm.len() == 1 && bm.len() == 1, "{a:?} is several keys");
                ensure!(hm.contains_key(b.as_str()) == eq && bm.contains_key(b.as_str()) == eq, "{b:?} looked up in a map of {a:?}");
                for x in &ta {
                    for y in &tb {
                        ensure!((x == y) == eq && (!eq || h(x) == h(y)), "texts {x:?} and {y:?}");
                    }
                }
                for x in &va {
                    for y in &vb {
                        ensure!((x == y) == eq, "values {x:?} and {y:?}");
                    }
                }
                o.outcome(&a.cmp(b));
            }
            o.step(a);
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- values
/// What a value is, compared by type and content.
#[derive(Clone, Debug, PartialEq)]
enum M {
    B(Vec<bool>, bool),
    I(Vec<i64>, bool),
    F(Vec<f64>, bool),
    S(Vec<String>, bool),
}
impl M {
    /// The same value in several representations.
    fn make(&self) -> Vec<Value> {
        match self {
            M::B(v, false) => vec![v[0].into()],
            M::I(v, false) => vec![v[0].into()],
            M::F(v, false) => vec![v[0].into()],
            M::S(v, false) => values_of(&v[0]),
            M::B(v, true) => vec![Value::Array(v.clone().into()), Value::Array(Array::Bool(v.clone()))],
            M::I(v, true) => vec![Value::Array(v.clone().into()), Value::Array(Array::I64(v.clone()))],
            M::F(v, true) => vec![Value::Array(v.clone().into()), Value::Array(Array::F64(v.clone()))],
            M::S(v, true) => (0..6).map(|i| Value::Array(v.iter().enumerate().map(|(j, s)| texts_of(s)[(i + j) % 6].clone()).collect::<Vec<_>>().into())).collect(),
        }
    }
    fn text(&self) -> String {
        let (l, many): (Vec<String>, bool) = match self {
            M::B(v, m) => (v.iter().map(|x| if *x { "true" } else { "false" }.to_string()).collect(), *m),
            M::I(v, m) => (v.iter().map(|x| x.to_string()).collect(), *m),
            M::F(v, m) => (v.iter().map(|x| x.to_string()).collect(), *m),
            M::S(v, true) => (v.iter().map(|x| format!("\"{x}\"")).collect(), true),
            M::S(v, false) => (v.clone(), false),
        };
        if many { format!("[{}]", l.join(",")) } else { l[0].clone() }
    }
    fn holds(&self, v: &Value) -> bool {
        match (self, v) {
            (M::B(x, false), Value::Bool(y)) => x[0] == *y,
            (M::I(x, false), Value::I64(y)) => x[0] == *y,
            (M::F(x, false), Value::F64(y)) => x[0].to_bits() == y.to_bits(),
            (M::S(x, false), Value::String(y)) => x[0] == y.as_str(),
            (M::B(x, true), Value::Array(Array::Bool(y))) => x == y,
            (M::I(x, true), Value::Array(Array::I64(y))) => x == y,
            (M::F(x, true), Value::Array(Array::F64(y))) => x.iter().map(|f| f.to_bits()).eq(y.iter().map(|f| f.to_bits())),
            (M::S(x, true), Value::Array(Array::String(y))) => x.iter().map(|s| s.as_str()).eq(y.iter().map(|s| s.as_str())),
            _ => false,
        }
    }
}
fn lists<T: Clone>(al: &[T], n: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|l| al.iter().map(move |x| l.iter().cloned().chain([x.clone()]).collect())).collect();
        all.extend(last.iter().cloned());
    }
    all
}
fn models(n: usize) -> Vec<M> {
    let mut v = vec![];
    let b = [false, true];
    let i = [0, 1, -1, i64::MAX, i64::MIN, (1 << 53) + 1];
    let f = [0.0, -0.0, 1.0, -1.5, 0.1, 1e21, 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY];
    let s: Vec<String> = ["", "a", "true", "1", "1.0", "[1]", ",", "\"", "\u{e9}"].map(String::from).to_vec();
    v.extend(b.map(|x| M::B(vec![x], false)));
    v.extend(i.map(|x| M::I(vec![x], false)));
    v.extend(f.map(|x| M::F(vec![x], false)));
    v.extend(s.iter().map(|x| M::S(vec![x.clone()], false)));
    v.extend(lists(&b, n).into_iter().map(|l| M::B(l, true)));
    v.extend(lists(&i[..4], n).into_iter().map(|l| M::I(l, true)));
    v.extend(lists(&f[..5], n).into_iter().map(|l| M::F(l, true)));
    v.extend(lists(&s[..4], n).into_iter().map(|l| M::S(l, true)));
    v
}
fn values(r: &mut Run) {
    let all = models(r.pick(2, 3));
    let made: Vec<(M, Vec<Value>, Vec<KeyValue>)> = all
        .into_iter()
        .map(|m| {
            let v = m.make();
            let k = v.iter().zip(keys_of("k").into_iter().cycle()).map(|(v, k)| KeyValue::new(k, v.clone())).collect();
            (m, v, k)
        })
        .collect();
    for (m, vs, ks) in &made {
        r.case(|| format!("{m:?}"), |o| {
            for v in vs {
                ensure!(m.holds(v), "{m:?} became {v:?}");
                same!(v.as_str(), m.text(), "as text");
                same!(v.to_string(), m.text(), "written out");
                same!(String::from(StringValue::from(v.clone())), m.text(), "made a text");
                if let Value::Array(a) = v {
                    same!(a.to_string(), m.text(), "array written out");
                }
            }
            for (m2, vs2, ks2) in &made {
                let eq = m == m2;
                for (x, k) in vs.iter().zip(ks) {
                    for (y, l) in vs2.iter().zip(ks2) {
                        ensure!((x == y) == eq, "{x:?} and {y:?} are {}the same", if eq { "not " } else { "" });
                        ensure!((k == l) == eq, "{k:?} and {l:?} are {}the same", if eq { "not " } else { "" });
                        ensure!(!eq || h(k) == h(l), "{k:?} and {l:?} are the same and have different hashes");
                    }
                }
                o.outcome(&eq);
            }
            for k in ks {
                let other = KeyValue::new("l", k.value.clone());
                ensure!(*k != other, "{k:?} is {other:?}");
            }
            o.step(&bhash(&format!("{m:?}")));
            Ok(())
        });
    }
    // numbers as log values
    macro_rules! ints { ($($t:ty),*) => { $(for x in [<$t>::MIN, <$t>::MAX, 0 as $t, 1 as $t, (<$t>::MAX >> 1) + 1] {
        r.case(|| format!("{x} as {}", stringify!($t)), |o| {
            ensure!(AnyValue::from(x) == AnyValue::Int(x as i64), "{x} became {:?}", AnyValue::from(x));
            o.step(&(stringify!($t), x as i64)); o.outcome(&stringify!($t)); Ok(())
        });
    })* }; }
    ints!(i8, i16, i32, i64, u8, u16, u32);
    for x in [0f32, -0.0, 0.1, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY] {
        r.case(|| format!("{x} as f32"), |o| {
            ensure!(matches!(AnyValue::from(x), AnyValue::Double(d) if d == x as f64 && d.is_sign_negative() == x.is_sign_negative()), "{x} became {:?}", AnyValue::from(x));
            ensure!(matches!(AnyValue::from(x as f64), AnyValue::Double(d) if d == x as f64), "{x} became {:?}", AnyValue::from(x as f64));
            o.step(&x.to_bits());
            o.outcome(&"f32");
            Ok(())
        });
    }
    for l in lists(&[0i64, 1, 2], r.pick(3, 4)) {
        r.case(|| format!("list and map of {l:?}"), |o| {
            let a: AnyValue = l.iter().copied().collect();
            ensure!(a == AnyValue::ListAny(Box::new(l.iter().map(|x| AnyValue::Int(*x)).collect())), "{l:?} became {a:?}");
            let m: AnyValue = l.iter().enumerate().map(|(i, x)| (x.to_string(), i as i64)).collect();
            let want: HashMap<Key, AnyValue> = l.iter().enumerate().map(|(i, x)| (Key::new(x.to_string()), AnyValue::Int(i as i64))).collect();
            ensure!(m == AnyValue::Map(Box::new(want)), "{l:?} became {m:?}");
            ensure!(AnyValue::from(true) == AnyValue::Boolean(true) && AnyValue::from(false) == AnyValue::Boolean(false), "booleans");
            o.step(&l);
            o.outcome(&l.len());
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- scopes
fn scopes(r: &mut Run) {
    type D = (&'static str, Option<&'static str>, Option<&'static str>, Vec<(usize, usize)>);
    let vals = [Value::from("v"), Value::from(1), Value::from(1.0)];
    let (nk, nv) = (3, r.pick(2, 3));
    let mut attrs: Vec<Vec<(usize, usize)>> = vec![];
    for l in lists(&(0..nk).collect::<Vec<_>>(), 3) {
        let mut q = l.clone();
        q.sort_unstable();
        q.dedup();
        if q.len() < l.len() {
            continue;
        }
        for v in lists(&(0..nv).collect::<Vec<_>>(), l.len()).into_iter().filter(|v| v.len() == l.len()) {
            attrs.push(l.iter().copied().zip(v).collect());
        }
    }
    let mut all: Vec<D> = vec![];
    for n in ["", "a", "as"] {
        for v in [None, Some(""), Some("s")] {
            for s in [None, Some(""), Some("s")] {
                for a in &attrs {
                    if n == "a" || a.len() < 2 {
                        all.push((n, v, s, a.clone()));
                    }
                }
            }
        }
    }
    let kv = |a: &[(usize, usize)], owned: bool| -> Vec<KeyValue> {
        a.iter().map(|&(k, v)| { let k = ["x", "y", "z"][k]; KeyValue::new(if owned { Key::new(k.to_string()) } else { Key::new(k) }, vals[v].clone()) }).collect()
    };
    let build = |d: &D, owned: bool| {
        let mut b = if owned { InstrumentationScope::builder(d.0.to_string()) } else { InstrumentationScope::builder(d.0) };
        // attributes first or last, texts owned or not
        if owned && !d.3.is_empty() {
            b = b.with_attributes(kv(&d.3, owned));
        }
        if let Some(v) = d.1 {
            b = if owned { b.with_version(v.to_string()) } else { b.with_version(v) };
        }
        if let Some(v) = d.2 {
            b = if owned { b.with_schema_url(v.to_string()) } else { b.with_schema_url(v) };
        }
        if !owned {
            b = b.with_attributes(kv(&d.3, owned));
        }
        b.build()
    };
    let made: Vec<(D, InstrumentationScope, u64)> = all.iter().map(|d| { let s = build(d, false); let x = h(&s); (d.clone(), s, x) }).collect();
    for d in &all {
        r.case(|| format!("{d:?}"), |o| {
            for owned in [false, true] {
                let s = build(d, owned);
                same!((s.name(), s.version(), s.schema_url()), (d.0, d.1, d.2), "scope");
                same!(s.attributes().cloned().collect::<Vec<_>>(), kv(&d.3, false), "attributes");
                let mut mine = d.3.clone();
                mine.sort_unstable();
                for (e, t, ht) in &made {
                    let mut theirs = e.3.clone();
                    theirs.sort_unstable();
                    let eq = (d.0, d.1, d.2) == (e.0, e.1, e.2) && mine == theirs;
                    ensure!((s == *t) == eq && (*t == s) == eq, "{s:?} and {t:?} are {}the same", if eq { "not " } else { "" });
                    ensure!(!eq || h(&s) == *ht, "{s:?} and {t:?} are the same and have different hashes");
                }
            }
            o.step(d);
            o.outcome(&(d.1, d.2, d.3.len()));
            Ok(())
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![
        family("C57", "ids", ids),
        family("C57", "id-texts", id_texts),
        family("C57", "flags-and-span-contexts", flags),
        family("C57", "keys-and-texts", texts),
        family("C57", "values", values),
        family("C57", "scopes", scopes),
    ]
}
