//! C56: OTLP/JSON messages read back as what they were written from, and with absent members as the defaults.
use crate::spans;
use bmc::{ensure, family, Family, Obs, Run, R};
use opentelemetry_proto::tonic::collector::{logs::v1 as cl, metrics::v1 as cm, trace::v1 as ct};
use opentelemetry_proto::tonic::common::v1::{any_value::Value as AV, AnyValue, ArrayValue, KeyValue, KeyValueList};
use prost::Message;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value as J;
use std::fmt::Debug;

/// Leaves out the members that say the same when they are absent, of the messages which may be read without them:
/// not those of array and key-value values, exemplars, exponential histogram points and answers, which are required.
/// What is inside a one-of counts even if it is a default.
fn sparse(j: &mut J) {
    const ONE_OF: [&str; 13] = ["stringValue", "boolValue", "intValue", "doubleValue", "arrayValue", "kvlistValue", "bytesValue", "asInt", "asDouble", "gauge", "sum", "histogram", "exponentialHistogram"];
    match j {
        J::Object(o) => {
            o.values_mut().for_each(sparse);
            // the minimum, the maximum and the sum of a histogram are optional, not default
            let points = o.contains_key("bucketCounts");
            let all = ["zeroCount", "offset", "filteredAttributes", "values", "errorMessage"].iter().any(|k| o.contains_key(*k));
            if all || o.contains_key("key") {
                return;
            }
            o.retain(|k, v| {
                let empty = match v {
                    J::Null => true,
                    J::Bool(b) => !*b,
                    J::String(s) => s.is_empty() || s == "0",
                    J::Number(n) => n.as_f64() == Some(0.0) && !n.as_f64().unwrap().is_sign_negative(),
                    J::Array(a) => a.is_empty(),
                    J::Object(_) => false,
                };
                !empty || ONE_OF.contains(&k.as_str()) || points && ["min", "max", "sum"].contains(&k.as_str()) && *v != J::Null
            });
        }
        J::Array(a) => a.iter_mut().for_each(sparse),
        _ => {}
    }
}
/// Members that are not known yet are to be ignored.
fn newer(j: &mut J) {
    match j {
        J::Object(o) => {
            o.values_mut().for_each(newer);
            o.insert("aNewMember".into(), serde_json::json!({"zNew": [1, "x", null]}));
            o.insert("zNewMember".into(), J::from("v"));
        }
        J::Array(a) => a.iter_mut().for_each(newer),
        _ => {}
    }
}
pub fn back<M: Message + Default + Serialize + DeserializeOwned + Debug>(m: &M, o: &mut Obs) -> R {
    let text = serde_json::to_string(m).map_err(|e| format!("cannot be written: {e}"))?;
    let want = m.encode_to_vec();
    let read = |how: &str, text: &str| -> R {
        let got: M = serde_json::from_str(text).map_err(|e| format!("{how} cannot be read: {e}\n{text}"))?;
        ensure!(got.encode_to_vec() == want, "{how} reads as\n{got:?}\ninstead of\n{m:?}\n{text}");
        Ok(())
    };
    read("what was written", &text)?;
    let mut j: J = serde_json::from_str(&text).map_err(|e| format!("not JSON: {e}"))?;
    read("what was written, as bytes of another layout,", &serde_json::to_string_pretty(&j).unwrap())?;
    let mut more = j.clone();
    newer(&mut more);
    read("what was written with members of a newer version", &more.to_string())?;
    sparse(&mut j);
    read("what was written without defaults", &j.to_string())?;
    o.step(&want);
    o.outcome(&want.len());
    Ok(())
}
fn leaf() -> Vec<AV> {
    let mut v: Vec<AV> = vec![];
    v.extend(["", "v", "h\u{e9}\u{1F600}\"\\\n\u{0}", "1", "intValue"].map(|s| AV::StringValue(s.into())));
    v.extend([false, true].map(AV::BoolValue));
    v.extend([0, 1, -1, i64::MIN, i64::MAX, 1 << 53, (1 << 53) + 1].map(AV::IntValue));
    v.extend([0.0, -0.0, 1.0, -2.5, 0.1, 1e300, 5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN].map(AV::DoubleValue));
    v.extend([vec![], vec![0], vec![255, 0, 1], vec![1, 2], vec![1, 2, 3, 4], (0..=255).collect()].map(AV::BytesValue));
    v
}
fn any(v: AV) -> AnyValue {
    AnyValue { value: Some(v) }
}
/// All values nested to a depth, as attributes.
fn values(r: &mut Run) {
    let mut all = leaf();
    let mut last = all.clone();
    for _ in 0..r.pick(2, 4) {
        let mut next = vec![AV::ArrayValue(ArrayValue { values: vec![] }), AV::KvlistValue(KeyValueList { values: vec![] })];
        for v in &last {
            next.push(AV::ArrayValue(ArrayValue { values: vec![any(v.clone())] }));
            next.push(AV::KvlistValue(KeyValueList { values: vec![KeyValue { key: "k".into(), value: Some(any(v.clone())) }] }));
        }
        next.push(AV::ArrayValue(ArrayValue { values: last.iter().cloned().map(any).collect() }));
        next.push(AV::KvlistValue(KeyValueList { values: last.iter().cloned().enumerate().map(|(i, v)| KeyValue { key: i.to_string(), value: Some(any(v)) }).collect() }));
        all.extend(next.iter().cloned());
        last = next;
    }
    // a value may be empty
    for l in [vec![AnyValue { value: None }], vec![any(AV::IntValue(1)), AnyValue { value: None }]] {
        r.case(|| format!("attributes {l:?}"), |o| {
            let attributes: Vec<_> = l.iter().cloned().map(Some).chain([None]).enumerate().map(|(i, value)| KeyValue { key: i.to_string(), value }).collect();
            back(&opentelemetry_proto::tonic::resource::v1::Resource { attributes, ..Default::default() }, o)?;
            back(&any(AV::ArrayValue(ArrayValue { values: l.clone() })), o)
        });
    }
    for (i, v) in all.iter().enumerate() {
        r.case(|| format!("value {i}: {v:?}"), |o| {
            let res = opentelemetry_proto::tonic::resource::v1::Resource { attributes: vec![KeyValue { key: "a".into(), value: Some(any(v.clone())) }], dropped_attributes_count: 3, ..Default::default() };
            back(&res, o)?;
            // integers may be written as numbers, doubles as strings
            for (other, same) in [
                (match v { AV::IntValue(i) => Some(format!("{{\"intValue\":{i}}}")), AV::DoubleValue(d) if d.is_finite() => Some(format!("{{\"doubleValue\":\"{d:?}\"}}")), _ => None }, any(v.clone())),
            ] {
                if let Some(other) = other {
                    let kv: KeyValue = serde_json::from_str(&format!("{{\"key\":\"a\",\"value\":{other}}}")).map_err(|e| format!("{other} cannot be read: {e}"))?;
                    ensure!(kv.value.as_ref().map(|x| x.encode_to_vec()) == Some(same.encode_to_vec()), "{other} reads as {kv:?}");
                }
            }
            Ok(())
        });
    }
}
fn answers(r: &mut Run) {
    let mut all = vec![None];
    for n in [0, 1, -1, i64::MAX, i64::MIN] {
        for s in ["", "why \u{e9}\""] {
            all.push(Some((n, s)));
        }
    }
    for a in all {
        r.case(|| format!("partial success {a:?}"), |o| {
            back(&ct::ExportTraceServiceResponse { partial_success: a.map(|(n, s)| ct::ExportTracePartialSuccess { rejected_spans: n, error_message: s.into() }) }, o)?;
            back(&cl::ExportLogsServiceResponse { partial_success: a.map(|(n, s)| cl::ExportLogsPartialSuccess { rejected_log_records: n, error_message: s.into() }) }, o)?;
            back(&cm::ExportMetricsServiceResponse { partial_success: a.map(|(n, s)| cm::ExportMetricsPartialSuccess { rejected_data_points: n, error_message: s.into() }) }, o)
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![
        family("C56", "otlp-json-values", values),
        family("C56", "otlp-json-responses", answers),
        family("C56", "otlp-json-spans", spans::read_back),
        family("C56", "otlp-json-logs", crate::logs::read_back),
        family("C56", "otlp-json-metrics", crate::mets::read_back),
    ]
}
