//! The OTLP messages as a schema of their own (field numbers from the protocol definition), a decoder of the binary
//! encoding and one of the JSON encoding, both written against that schema and independent of the code under test.
use serde_json::Value as J;

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum T {
    /// Absent, or the default value of a field without explicit presence.
    N,
    S(String),
    L(Vec<T>),
    M(Vec<(&'static str, T)>),
}
#[derive(Clone, Copy)]
pub enum K {
    Str,
    /// bytes, hexadecimal in JSON
    Hex,
    /// bytes, base64 in JSON
    B64,
    Bool,
    U64,
    I64,
    U32,
    S32,
    Enum,
    Fixed64,
    SFixed64,
    Fixed32,
    F64,
    Msg(fn() -> &'static [F]),
}
use K::*;
#[derive(Clone, Copy, PartialEq)]
pub enum L {
    /// default value and absence are the same
    One,
    /// explicit presence
    Opt,
    Rep,
}
use L::*;
pub struct F(u32, &'static str, K, L);
impl F {
    pub fn name(&self) -> &'static str {
        self.1
    }
}

macro_rules! schema { ($($name:ident { $($n:literal $f:literal $k:expr, $l:expr);* })*) => {
    $(pub fn $name() -> &'static [F] { &[$(F($n, $f, $k, $l)),*] })*
}}
schema! {
any_value { 1 "string_value" Str, Opt; 2 "bool_value" Bool, Opt; 3 "int_value" I64, Opt; 4 "double_value" F64, Opt;
    5 "array_value" Msg(array_value), Opt; 6 "kvlist_value" Msg(kvlist), Opt; 7 "bytes_value" B64, Opt }
array_value { 1 "values" Msg(any_value), Rep }
kvlist { 1 "values" Msg(key_value), Rep }
key_value { 1 "key" Str, One; 2 "value" Msg(any_value), Opt }
scope { 1 "name" Str, One; 2 "version" Str, One; 3 "attributes" Msg(key_value), Rep; 4 "dropped_attributes_count" U32, One }
resource { 1 "attributes" Msg(key_value), Rep; 2 "dropped_attributes_count" U32, One }
trace_request { 1 "resource_spans" Msg(resource_spans), Rep }
resource_spans { 1 "resource" Msg(resource), One; 2 "scope_spans" Msg(scope_spans), Rep; 3 "schema_url" Str, One }
scope_spans { 1 "scope" Msg(scope), One; 2 "spans" Msg(span), Rep; 3 "schema_url" Str, One }
span { 1 "trace_id" Hex, One; 2 "span_id" Hex, One; 3 "trace_state" Str, One; 4 "parent_span_id" Hex, One; 5 "name" Str, One;
    6 "kind" Enum, One; 7 "start_time_unix_nano" Fixed64, One; 8 "end_time_unix_nano" Fixed64, One; 9 "attributes" Msg(key_value), Rep;
    10 "dropped_attributes_count" U32, One; 11 "events" Msg(event), Rep; 12 "dropped_events_count" U32, One; 13 "links" Msg(link), Rep;
    14 "dropped_links_count" U32, One; 15 "status" Msg(status), One; 16 "flags" Fixed32, One }
event { 1 "time_unix_nano" Fixed64, One; 2 "name" Str, One; 3 "attributes" Msg(key_value), Rep; 4 "dropped_attributes_count" U32, One }
link { 1 "trace_id" Hex, One; 2 "span_id" Hex, One; 3 "trace_state" Str, One; 4 "attributes" Msg(key_value), Rep;
    5 "dropped_attributes_count" U32, One; 6 "flags" Fixed32, One }
status { 2 "message" Str, One; 3 "code" Enum, One }
latency_data { 1 "trace_id" Hex, One; 2 "span_id" Hex, One; 3 "parent_span_id" Hex, One; 4 "start_time_unix_nano" Fixed64, One;
    5 "end_time_unix_nano" Fixed64, One; 6 "attributes" Msg(key_value), Rep; 7 "events" Msg(event), Rep; 8 "links" Msg(link), Rep }
running_data { 1 "trace_id" Hex, One; 2 "span_id" Hex, One; 3 "parent_span_id" Hex, One; 4 "start_time_unix_nano" Fixed64, One;
    5 "attributes" Msg(key_value), Rep; 6 "events" Msg(event), Rep; 7 "links" Msg(link), Rep }
error_data { 1 "trace_id" Hex, One; 2 "span_id" Hex, One; 3 "parent_span_id" Hex, One; 4 "start_time_unix_nano" Fixed64, One;
    5 "attributes" Msg(key_value), Rep; 6 "events" Msg(event), Rep; 7 "links" Msg(link), Rep; 8 "status" Msg(status), One }
logs_request { 1 "resource_logs" Msg(resource_logs), Rep }
resource_logs { 1 "resource" Msg(resource), One; 2 "scope_logs" Msg(scope_logs), Rep; 3 "schema_url" Str, One }
scope_logs { 1 "scope" Msg(scope), One; 2 "log_records" Msg(log_record), Rep; 3 "schema_url" Str, One }
log_record { 1 "time_unix_nano" Fixed64, One; 2 "severity_number" Enum, One; 3 "severity_text" Str, One; 5 "body" Msg(any_value), Opt;
    6 "attributes" Msg(key_value), Rep; 7 "dropped_attributes_count" U32, One; 8 "flags" Fixed32, One; 9 "trace_id" Hex, One;
    10 "span_id" Hex, One; 11 "observed_time_unix_nano" Fixed64, One; 12 "event_name" Str, One }
metrics_request { 1 "resource_metrics" Msg(resource_metrics), Rep }
resource_metrics { 1 "resource" Msg(resource), One; 2 "scope_metrics" Msg(scope_metrics), Rep; 3 "schema_url" Str, One }
scope_metrics { 1 "scope" Msg(scope), One; 2 "metrics" Msg(metric), Rep; 3 "schema_url" Str, One }
metric { 1 "name" Str, One; 2 "description" Str, One; 3 "unit" Str, One; 5 "gauge" Msg(gauge), Opt; 7 "sum" Msg(sum), Opt;
    9 "histogram" Msg(histogram), Opt; 10 "exponential_histogram" Msg(exp_histogram), Opt; 12 "metadata" Msg(key_value), Rep }
gauge { 1 "data_points" Msg(number), Rep }
sum { 1 "data_points" Msg(number), Rep; 2 "aggregation_temporality" Enum, One; 3 "is_monotonic" Bool, One }
histogram { 1 "data_points" Msg(hist_point), Rep; 2 "aggregation_temporality" Enum, One }
exp_histogram { 1 "data_points" Msg(exp_point), Rep; 2 "aggregation_temporality" Enum, One }
number { 2 "start_time_unix_nano" Fixed64, One; 3 "time_unix_nano" Fixed64, One; 4 "as_double" F64, Opt; 5 "exemplars" Msg(exemplar), Rep;
    6 "as_int" SFixed64, Opt; 7 "attributes" Msg(key_value), Rep; 8 "flags" U32, One }
hist_point { 2 "start_time_unix_nano" Fixed64, One; 3 "time_unix_nano" Fixed64, One; 4 "count" Fixed64, One; 5 "sum" F64, Opt;
    6 "bucket_counts" Fixed64, Rep; 7 "explicit_bounds" F64, Rep; 8 "exemplars" Msg(exemplar), Rep; 9 "attributes" Msg(key_value), Rep;
    10 "flags" U32, One; 11 "min" F64, Opt; 12 "max" F64, Opt }
exp_point { 1 "attributes" Msg(key_value), Rep; 2 "start_time_unix_nano" Fixed64, One; 3 "time_unix_nano" Fixed64, One; 4 "count" Fixed64, One;
    5 "sum" F64, Opt; 6 "scale" S32, One; 7 "zero_count" Fixed64, One; 8 "positive" Msg(buckets), One; 9 "negative" Msg(buckets), One;
    10 "flags" U32, One; 11 "exemplars" Msg(exemplar), Rep; 12 "min" F64, Opt; 13 "max" F64, Opt; 14 "zero_threshold" F64, One }
buckets { 1 "offset" S32, One; 2 "bucket_counts" U64, Rep }
exemplar { 2 "time_unix_nano" Fixed64, One; 3 "as_double" F64, Opt; 4 "span_id" Hex, One; 5 "trace_id" Hex, One; 6 "as_int" SFixed64, Opt;
    7 "filtered_attributes" Msg(key_value), Rep }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn num(v: impl std::fmt::Display) -> T {
    T::S(v.to_string())
}
pub fn float(v: f64) -> T {
    T::S(if v.is_nan() { "NaN".into() } else { format!("f{:016x}", v.to_bits()) })
}
/// A field without explicit presence.
fn dflt(k: K, t: T) -> T {
    match (k, &t) {
        (Str | Hex | B64, T::S(s)) if s.is_empty() => T::N,
        (Bool, T::S(s)) if s == "false" => T::N,
        (U64 | I64 | U32 | S32 | Enum | Fixed64 | SFixed64 | Fixed32, T::S(s)) if s == "0" => T::N,
        (F64, T::S(s)) if s == "f0000000000000000" => T::N,
        (_, T::M(m)) if m.is_empty() => T::N,
        _ => t,
    }
}
// expected values
pub fn s(v: &str) -> T {
    dflt(Str, T::S(v.into()))
}
pub fn n(v: impl std::fmt::Display) -> T {
    dflt(U64, num(v))
}
pub fn flag(v: bool) -> T {
    dflt(Bool, num(v))
}
pub fn f(v: f64) -> T {
    dflt(F64, float(v))
}
pub fn bytes(v: &[u8]) -> T {
    dflt(Hex, T::S(hex(v)))
}
pub fn some_s(v: &str) -> T {
    T::S(v.into())
}
pub fn some_n(v: impl std::fmt::Display) -> T {
    num(v)
}
pub fn list(v: Vec<T>) -> T {
    if v.is_empty() { T::N } else { T::L(v) }
}
/// A message; fields in any order, absent ones left out.
pub fn msg(v: Vec<(&'static str, T)>) -> T {
    let mut v: Vec<_> = v.into_iter().filter(|(_, t)| *t != T::N).collect();
    v.sort();
    T::M(v)
}
/// A message field that counts as absent when empty.
pub fn sub(v: Vec<(&'static str, T)>) -> T {
    dflt(Str, msg(v))
}
impl T {
    pub fn get(&self, k: &str) -> &T {
        static N: T = T::N;
        match self {
            T::M(m) => m.iter().find(|(n, _)| *n == k).map(|x| &x.1).unwrap_or(&N),
            _ => &N,
        }
    }
    pub fn items(&self) -> &[T] {
        match self {
            T::L(l) => l,
            _ => &[],
        }
    }
    pub fn show(&self) -> String {
        match self {
            T::N => "-".into(),
            T::S(s) => format!("{s:?}"),
            T::L(l) => format!("[{}]", l.iter().map(|t| t.show()).collect::<Vec<_>>().join(", ")),
            T::M(m) => format!("{{{}}}", m.iter().map(|(k, t)| format!("{k}: {}", t.show())).collect::<Vec<_>>().join(", ")),
        }
    }
    /// The first place where two trees differ.
    pub fn diff(&self, other: &T) -> String {
        match (self, other) {
            (T::M(a), T::M(b)) => {
                for k in a.iter().chain(b).map(|x| x.0) {
                    if self.get(k) != other.get(k) {
                        return format!("{k}/{}", self.get(k).diff(other.get(k)));
                    }
                }
                "same".into()
            }
            (T::L(a), T::L(b)) if a.len() == b.len() => match (0..a.len()).find(|&i| a[i] != b[i]) {
                Some(i) => format!("[{i}]/{}", a[i].diff(&b[i])),
                None => "same".into(),
            },
            _ => format!(" got {} expected {}", self.show(), other.show()),
        }
    }
}

pub type D = Result<T, String>;
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn varint(&mut self) -> Result<u64, String> {
        let mut v = 0u64;
        for i in 0..10 {
            let b = *self.0.first().ok_or("truncated varint")?;
            self.0 = &self.0[1..];
            v |= ((b & 0x7f) as u64).checked_shl(7 * i).unwrap_or(0);
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err("varint too long".into())
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err("truncated".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
}
fn wire_type(k: K) -> u64 {
    match k {
        Str | Hex | B64 | Msg(_) => 2,
        Bool | U64 | I64 | U32 | S32 | Enum => 0,
        Fixed64 | SFixed64 | F64 => 1,
        Fixed32 => 5,
    }
}
fn scalar(k: K, r: &mut Rd) -> D {
    Ok(match k {
        Bool => match r.varint()? {
            0 => T::S("false".into()),
            1 => T::S("true".into()),
            v => return Err(format!("bool {v}")),
        },
        U64 => num(r.varint()?),
        I64 => num(r.varint()? as i64),
        U32 => num(u32::try_from(r.varint()?).map_err(|e| e.to_string())?),
        Enum => num(r.varint()? as i64 as i32),
        S32 => {
            let v = r.varint()? as u32;
            num(((v >> 1) as i32) ^ -((v & 1) as i32))
        }
        Fixed64 => num(u64::from_le_bytes(r.take(8)?.try_into().unwrap())),
        SFixed64 => num(i64::from_le_bytes(r.take(8)?.try_into().unwrap())),
        F64 => float(f64::from_le_bytes(r.take(8)?.try_into().unwrap())),
        Fixed32 => num(u32::from_le_bytes(r.take(4)?.try_into().unwrap())),
        Str => {
            let l = r.varint()? as usize;
            T::S(std::str::from_utf8(r.take(l)?).map_err(|e| e.to_string())?.into())
        }
        Hex | B64 => {
            let l = r.varint()? as usize;
            T::S(hex(r.take(l)?))
        }
        Msg(m) => {
            let l = r.varint()? as usize;
            binary(m(), r.take(l)?)?
        }
    })
}
fn finish(schema: &'static [F], mut vals: Vec<Vec<T>>, seen: &[bool]) -> D {
    let mut out = vec![];
    for (i, F(_, name, k, l)) in schema.iter().enumerate() {
        let v = std::mem::take(&mut vals[i]);
        if *l == Rep {
            out.push((*name, list(v)));
        } else if seen[i] {
            if v.len() != 1 {
                return Err(format!("{name} occurs {} times", v.len()));
            }
            let v = v.into_iter().next().unwrap();
            out.push((*name, if *l == One { dflt(*k, v) } else { v }));
        }
    }
    Ok(msg(out))
}
pub fn binary(schema: &'static [F], b: &[u8]) -> D {
    let mut r = Rd(b);
    let mut vals = vec![vec![]; schema.len()];
    let mut seen = vec![false; schema.len()];
    while !r.0.is_empty() {
        let key = r.varint()?;
        let i = schema.iter().position(|x| x.0 as u64 == key >> 3).ok_or_else(|| format!("unknown field {}", key >> 3))?;
        let F(_, name, k, l) = &schema[i];
        seen[i] = true;
        if key & 7 == wire_type(*k) {
            vals[i].push(scalar(*k, &mut r).map_err(|e| format!("{name}: {e}"))?);
        } else if key & 7 == 2 && *l == Rep {
            let n = r.varint()? as usize;
            let mut p = Rd(r.take(n)?);
            while !p.0.is_empty() {
                vals[i].push(scalar(*k, &mut p).map_err(|e| format!("{name}: {e}"))?);
            }
        } else {
            return Err(format!("{name}: wire type {}", key & 7));
        }
    }
    finish(schema, vals, &seen)
}

fn camel(n: &str) -> String {
    let mut out = String::new();
    let mut up = false;
    for c in n.chars() {
        if c == '_' {
            up = true;
        } else {
            out.push(if up { c.to_ascii_uppercase() } else { c });
            up = false;
        }
    }
    out
}
fn int<N: std::str::FromStr + std::fmt::Display>(j: &J) -> D {
    let t = match j {
        J::Number(n) => n.to_string(),
        J::String(s) => s.clone(),
        _ => return Err(format!("not an integer: {j}")),
    };
    t.parse::<N>().map(num).map_err(|_| format!("not in range: {t}"))
}
fn json_scalar(k: K, j: &J) -> D {
    let text = || j.as_str().ok_or_else(|| format!("not a string: {j}"));
    Ok(match k {
        Bool => T::S(j.as_bool().ok_or_else(|| format!("not a boolean: {j}"))?.to_string()),
        U64 | Fixed64 => int::<u64>(j)?,
        I64 | SFixed64 => int::<i64>(j)?,
        U32 | Fixed32 => int::<u32>(j)?,
        S32 | Enum => int::<i32>(j)?,
        F64 => match j {
            J::Number(x) => float(x.as_f64().ok_or("number")?),
            J::String(s) if s == "NaN" => float(f64::NAN),
            J::String(s) if s == "Infinity" => float(f64::INFINITY),
            J::String(s) if s == "-Infinity" => float(f64::NEG_INFINITY),
            J::Null => T::S("null".into()),
            _ => return Err(format!("not a number: {j}")),
        },
        Str => T::S(text()?.into()),
        Hex => {
            let s = text()?;
            if s.len() % 2 != 0 || !s.bytes().all(|c| c.is_ascii_hexdigit()) {
                return Err(format!("not hexadecimal: {s}"));
            }
            T::S(s.to_ascii_lowercase())
        }
        B64 => T::S(hex(&base64(text()?)?)),
        Msg(m) => json(m(), j)?,
    })
}
fn base64(s: &str) -> Result<Vec<u8>, String> {
    let t = s.trim_end_matches('=');
    let (mut acc, mut bits, mut out) = (0u32, 0, vec![]);
    for c in t.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' | b'-' => 62,
            b'/' | b'_' => 63,
            _ => return Err(format!("not base64: {s}")),
        };
        acc = acc << 6 | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Ok(out)
}
/// The value `null` counts as absent.
pub fn json(schema: &'static [F], j: &J) -> D {
    let o = j.as_object().ok_or_else(|| format!("not an object: {j}"))?;
    let mut vals = vec![vec![]; schema.len()];
    let mut seen = vec![false; schema.len()];
    for (key, v) in o {
        if v.is_null() {
            continue;
        }
        let i = schema.iter().position(|x| camel(x.1) == *key).ok_or_else(|| format!("unknown member {key}"))?;
        let F(_, name, k, l) = &schema[i];
        seen[i] = true;
        if *l == Rep {
            for x in v.as_array().ok_or_else(|| format!("{name}: not an array"))? {
                vals[i].push(json_scalar(*k, x).map_err(|e| format!("{name}: {e}"))?);
            }
        } else {
            vals[i].push(json_scalar(*k, v).map_err(|e| format!("{name}: {e}"))?);
        }
    }
    finish(schema, vals, &seen)
}
/// A JSON body; the JSON reader keeps the exact value of every number.
pub fn json_bytes(schema: &'static [F], b: &[u8]) -> D {
    json(schema, &serde_json::from_slice(b).map_err(|e| e.to_string())?)
}
