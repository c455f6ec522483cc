use crate::tree::*;
use opentelemetry::{Array, InstrumentationScope, KeyValue, StringValue, Value};
use opentelemetry_http::{Bytes, HttpClient, HttpError, Request, Response};
use opentelemetry_sdk::Resource;
use std::future::Future;
use std::pin::pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// The futures under test never wait when the client answers at once.
pub fn ready<F: Future>(f: F) -> F::Output {
    match pin!(f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("the export waits although the client has answered"),
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Answer {
    Status(u16),
    Lost,
}
#[derive(Debug)]
pub struct Sent {
    pub method: String,
    pub uri: String,
    pub headers: Vec<(String, String)>,
    pub body: Bytes,
}
/// An HTTP client that records every request and gives the scripted answer.
#[derive(Clone, Debug)]
pub struct Fake(pub Arc<Mutex<(Vec<Sent>, Answer)>>);
impl Fake {
    pub fn new() -> Fake {
        Fake(Arc::new(Mutex::new((vec![], Answer::Status(200)))))
    }
    pub fn answer(&self, a: Answer) {
        self.0.lock().unwrap().1 = a;
    }
    pub fn take(&self) -> Vec<Sent> {
        std::mem::take(&mut self.0.lock().unwrap().0)
    }
}
#[async_trait::async_trait]
impl HttpClient for Fake {
    async fn send_bytes(&self, r: Request<Bytes>) -> Result<Response<Bytes>, HttpError> {
        let mut g = self.0.lock().unwrap();
        let (p, body) = r.into_parts();
        g.0.push(Sent {
            method: p.method.to_string(),
            uri: p.uri.to_string(),
            headers: p.headers.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect(),
            body,
        });
        match g.1 {
            Answer::Status(s) => Ok(Response::builder().status(s).body(Bytes::from_static(b"answer")).unwrap()),
            Answer::Lost => Err("connection lost".into()),
        }
    }
}

pub fn at(nanos: u64) -> SystemTime {
    UNIX_EPOCH + Duration::from_nanos(nanos)
}
pub const TIMES: [u64; 5] = [1_700_000_000_123_456_789, 0, 1, 999_999_999, u64::MAX];

/// Attribute values of every type at their boundaries.
pub fn values() -> Vec<Value> {
    let s = |v: &'static str| StringValue::from(v);
    vec![
        Value::String("v".into()),
        Value::String("".into()),
        Value::String("h\u{e9}\u{1F600}\"\\\n\u{7f}".into()),
        Value::String(String::from("owned").into()),
        Value::Bool(true),
        Value::Bool(false),
        Value::I64(0),
        Value::I64(i64::MIN),
        Value::I64(i64::MAX),
        Value::F64(0.0),
        Value::F64(-1.5),
        Value::F64(0.1),
        Value::F64(f64::MAX),
        Value::F64(5e-324),
        Value::F64(f64::NAN),
        Value::F64(f64::INFINITY),
        Value::F64(f64::NEG_INFINITY),
        Value::Array(Array::Bool(vec![])),
        Value::Array(Array::Bool(vec![true, false])),
        Value::Array(Array::I64(vec![i64::MIN, 0, i64::MAX])),
        Value::Array(Array::F64(vec![0.0, 2.5, f64::NAN])),
        Value::Array(Array::String(vec![s(""), s("a"), s("\u{e9}")])),
        Value::Array(Array::String(vec![])),
    ]
}
pub fn attr_lists() -> Vec<Vec<KeyValue>> {
    let mut out = vec![vec![]];
    out.extend(values().into_iter().map(|v| vec![KeyValue::new("k", v)]));
    out.push(vec![KeyValue::new("", "empty key"), KeyValue::new("k", 1)]);
    out.push(vec![KeyValue::new("k", 1), KeyValue::new("k", 2), KeyValue::new("a", "x")]);
    out.push(values().into_iter().enumerate().map(|(i, v)| KeyValue::new(format!("k{i}"), v)).collect());
    out
}
pub fn any(v: &Value) -> T {
    let arr = |l: Vec<T>| msg(vec![("array_value", msg(vec![("values", list(l))]))]);
    match v {
        Value::Bool(b) => msg(vec![("bool_value", some_n(b))]),
        Value::I64(i) => msg(vec![("int_value", some_n(i))]),
        Value::F64(x) => msg(vec![("double_value", float(*x))]),
        Value::String(s) => msg(vec![("string_value", some_s(s.as_str()))]),
        Value::Array(Array::Bool(l)) => arr(l.iter().map(|x| any(&Value::Bool(*x))).collect()),
        Value::Array(Array::I64(l)) => arr(l.iter().map(|x| any(&Value::I64(*x))).collect()),
        Value::Array(Array::F64(l)) => arr(l.iter().map(|x| any(&Value::F64(*x))).collect()),
        Value::Array(Array::String(l)) => arr(l.iter().map(|x| any(&Value::String(x.clone()))).collect()),
        _ => unreachable!(),
    }
}
pub fn kv(k: &str, v: T) -> T {
    msg(vec![("key", s(k)), ("value", v)])
}
pub fn attrs(l: &[KeyValue]) -> T {
    list(l.iter().map(|a| kv(a.key.as_str(), any(&a.value))).collect())
}
pub fn scopes() -> Vec<InstrumentationScope> {
    let b = |n: &'static str| InstrumentationScope::builder(n);
    vec![
        b("lib").build(),
        b("lib2").build(),
        b("lib").with_version("1").build(),
        b("lib").with_schema_url("scope-schema").build(),
        b("lib").with_attributes([KeyValue::new("a", 1), KeyValue::new("b", "x")]).build(),
        b("").build(),
        b("lib").with_version("1").with_schema_url("s2").with_attributes([KeyValue::new("a", 2)]).build(),
    ]
}
pub fn scope_t(s_: &InstrumentationScope) -> T {
    sub(vec![("name", s(s_.name())), ("version", s(s_.version().unwrap_or(""))), ("attributes", attrs(&s_.attributes().cloned().collect::<Vec<_>>()))])
}
pub fn resources() -> Vec<Resource> {
    vec![
        Resource::builder_empty().with_attributes([KeyValue::new("service.name", "svc")]).build(),
        Resource::builder_empty().build(),
        Resource::builder_empty().with_schema_url([KeyValue::new("r", 7), KeyValue::new("q", true)], "resource-schema").build(),
    ]
}
/// Resource attributes have no order.
pub fn resource_t(r: &Resource) -> T {
    let mut l: Vec<T> = r.iter().map(|(k, v)| kv(k.as_str(), any(v))).collect();
    l.sort();
    sub(vec![("attributes", list(l))])
}
pub fn sorted_attrs(t: &T) -> T {
    let mut l = t.get("attributes").items().to_vec();
    l.sort();
    match t {
        T::M(m) => T::M(m.iter().map(|(k, v)| (*k, if *k == "attributes" { T::L(l.clone()) } else { v.clone() })).collect()),
        o => o.clone(),
    }
}
/// (scope, scope schema URL, item), the items in order, after checking the parts that all requests share.
pub struct Flat {
    pub items: Vec<(T, T, T)>,
    pub groups: Vec<(T, T)>,
}
pub fn flatten(req: &T, names: [&'static str; 3], res: &Resource) -> Result<Flat, String> {
    let rs = req.get(names[0]).items();
    let mut out = Flat { items: vec![], groups: vec![] };
    if rs.len() > 1 {
        return Err(format!("{} resources for one", rs.len()));
    }
    for r in rs {
        let (got, want) = (sorted_attrs(r.get("resource")), resource_t(res));
        if got != want {
            return Err(format!("resource: {}", got.diff(&want)));
        }
        let want = s(res.schema_url().unwrap_or(""));
        if *r.get("schema_url") != want {
            return Err(format!("resource schema URL: {}", r.get("schema_url").diff(&want)));
        }
        for sc in r.get(names[1]).items() {
            let g = (sc.get("scope").clone(), sc.get("schema_url").clone());
            out.items.extend(sc.get(names[2]).items().iter().map(|i| (g.0.clone(), g.1.clone(), i.clone())));
            out.groups.push(g);
        }
    }
    Ok(out)
}
/// The same items, each once, in any order.
pub fn same_items(got: Vec<(T, T, T)>, want: Vec<(T, T, T)>) -> Result<(), String> {
    let (mut g, mut w) = (got, want);
    g.sort();
    w.sort();
    if g.len() != w.len() {
        return Err(format!("{} items instead of {}: {:?}", g.len(), w.len(), g.iter().map(|x| x.2.show()).collect::<Vec<_>>()));
    }
    for (a, b) in g.iter().zip(&w) {
        if a != b {
            return Err(match (a.0 != b.0, a.1 != b.1) {
                (true, _) => format!("scope{}", a.0.diff(&b.0)),
                (_, true) => format!("scope schema URL{}", a.1.diff(&b.1)),
                _ => format!("item {}", a.2.diff(&b.2)),
            });
        }
    }
    Ok(())
}
