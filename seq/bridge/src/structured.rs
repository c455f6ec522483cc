//! Structured values through the bridge from the log crate.
use crate::facade::*;
use crate::record::*;
use bmc::{family, Family, Run};
use log::kv::Value;
use opentelemetry_appender_log::OpenTelemetryLogBridge;
use serde::ser::*;

/// A value in the data model of serde.
#[derive(Clone, Debug)]
pub enum S {
    Bool(bool),
    I8(i8),
    I64(i64),
    U8(u8),
    U64(u64),
    I128(i128),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(&'static str),
    Bytes(&'static [u8]),
    None,
    Some(Box<S>),
    Unit,
    UnitVariant,
    NewtypeStruct(Box<S>),
    NewtypeVariant(Box<S>),
    Seq(Vec<S>),
    Tuple(Vec<S>),
    TupleStruct(Vec<S>),
    TupleVariant(Vec<S>),
    Map(Vec<(S, S)>),
    Struct(Vec<(&'static str, S)>),
    StructVariant(Vec<(&'static str, S)>),
}
impl Serialize for S {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            S::Bool(x) => z.serialize_bool(*x),
            S::I8(x) => z.serialize_i8(*x),
            S::I64(x) => z.serialize_i64(*x),
            S::U8(x) => z.serialize_u8(*x),
            S::U64(x) => z.serialize_u64(*x),
            S::I128(x) => z.serialize_i128(*x),
            S::U128(x) => z.serialize_u128(*x),
            S::F32(x) => z.serialize_f32(*x),
            S::F64(x) => z.serialize_f64(*x),
            S::Char(x) => z.serialize_char(*x),
            S::Str(x) => z.serialize_str(x),
            S::Bytes(x) => z.serialize_bytes(x),
            S::None => z.serialize_none(),
            S::Some(x) => z.serialize_some(x),
            S::Unit => z.serialize_unit(),
            S::UnitVariant => z.serialize_unit_variant("E", 0, "Unit"),
            S::NewtypeStruct(x) => z.serialize_newtype_struct("N", x),
            S::NewtypeVariant(x) => z.serialize_newtype_variant("E", 1, "New", x),
            S::Seq(l) => {
                let mut q = z.serialize_seq(Some(l.len()))?;
                for x in l {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            S::Tuple(l) => {
                let mut q = z.serialize_tuple(l.len())?;
                for x in l {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            S::TupleStruct(l) => {
                let mut q = z.serialize_tuple_struct("T", l.len())?;
                for x in l {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            S::TupleVariant(l) => {
                let mut q = z.serialize_tuple_variant("E", 2, "Tup", l.len())?;
                for x in l {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            S::Map(l) => {
                let mut q = z.serialize_map(Some(l.len()))?;
                for (k, v) in l {
                    q.serialize_entry(k, v)?;
                }
                q.end()
            }
            S::Struct(l) => {
                let mut q = z.serialize_struct("S", l.len())?;
                for (k, v) in l {
                    q.serialize_field(k, v)?;
                }
                q.end()
            }
            S::StructVariant(l) => {
                let mut q = z.serialize_struct_variant("E", 3, "Str", l.len())?;
                for (k, v) in l {
                    q.serialize_field(k, v)?;
                }
                q.end()
            }
        }
    }
}
/// The documented translation; None for a value that is left out.
fn want(s: &S) -> Option<String> {
    let int = |x: &dyn std::fmt::Display, fits: bool| Some(if fits { format!("i{x}") } else { format!("s\"{x}\"") });
    let d = |x: f64| Some(format!("d{:x}", if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }));
    let list = |l: &[S]| format!("[{}]", l.iter().filter_map(want).collect::<Vec<_>>().join(","));
    let map = |l: Vec<(String, Option<String>)>| {
        let mut m = std::collections::BTreeMap::new();
        for (k, v) in l {
            if let Some(v) = v {
                m.insert(k, v);
            }
        }
        let mut l: Vec<_> = m.into_iter().map(|(k, v)| format!("{k:?}:{v}")).collect();
        l.sort();
        format!("{{{}}}", l.join(","))
    };
    match s {
        S::Bool(b) => Some(format!("b{b}")),
        S::I8(x) => int(x, true),
        S::I64(x) => int(x, true),
        S::U8(x) => int(x, true),
        S::U64(x) => int(x, *x <= i64::MAX as u64),
        S::I128(x) => int(x, *x <= i64::MAX as i128 && *x >= i64::MIN as i128),
        S::U128(x) => int(x, *x <= i64::MAX as u128),
        S::F32(x) => d(*x as f64),
        S::F64(x) => d(*x),
        S::Char(c) => Some(format!("s{:?}", c.to_string())),
        S::Str(x) => Some(format!("s{x:?}")),
        S::Bytes(b) => Some(format!("y{b:?}")),
        S::None | S::Unit => None,
        S::Some(x) | S::NewtypeStruct(x) => want(x),
        S::UnitVariant => Some("s\"Unit\"".into()),
        S::NewtypeVariant(x) => Some(map(vec![("New".into(), want(x))])),
        S::Seq(l) | S::Tuple(l) | S::TupleStruct(l) => Some(list(l)),
        S::TupleVariant(l) => Some(map(vec![("Tup".into(), Some(list(l)))])),
        S::Map(l) => Some(map(l.iter().map(|(k, v)| (key(k), want(v))).collect())),
        S::Struct(l) => Some(map(l.iter().map(|(k, v)| (k.to_string(), want(v))).collect())),
        S::StructVariant(l) => Some(map(vec![("Str".into(), Some(map(l.iter().map(|(k, v)| (k.to_string(), want(v))).collect())))])),
    }
}
fn key(k: &S) -> String {
    match k {
        S::Str(s) => s.to_string(),
        S::Char(c) => c.to_string(),
        S::UnitVariant => "Unit".into(),
        _ => unreachable!("not in the alphabet"),
    }
}
fn leaves() -> Vec<S> {
    let m = i64::MAX;
    vec![
        S::I64(1),
        S::Str("v"),
        S::None,
        S::Bool(true),
        S::Bool(false),
        S::I8(i8::MIN),
        S::I64(i64::MIN),
        S::U8(255),
        S::U64(m as u64),
        S::U64(m as u64 + 1),
        S::I128(m as i128),
        S::I128(m as i128 + 1),
        S::I128(i64::MIN as i128 - 1),
        S::U128(m as u128),
        S::U128(u128::MAX),
        S::F32(0.5),
        S::F64(f64::NAN),
        S::F64(-0.0),
        S::Char('\u{1F600}'),
        S::Str(""),
        S::Bytes(&[]),
        S::Bytes(&[0, 255]),
        S::Unit,
        S::UnitVariant,
    ]
}
/// All values that wrap up to `width` of the given ones.
fn wraps(of: &[S], width: usize) -> Vec<S> {
    let mut out = vec![];
    for x in of {
        out.push(S::Some(Box::new(x.clone())));
        out.push(S::NewtypeStruct(Box::new(x.clone())));
        out.push(S::NewtypeVariant(Box::new(x.clone())));
    }
    let mut lists: Vec<Vec<S>> = vec![vec![]];
    let mut last = lists.clone();
    for _ in 0..width {
        last = last.iter().flat_map(|l| of.iter().map(move |x| l.iter().cloned().chain([x.clone()]).collect::<Vec<_>>())).collect();
        lists.extend(last.clone());
    }
    const N: [&str; 3] = ["x", "", "z"];
    for l in lists {
        let named: Vec<(&'static str, S)> = l.iter().cloned().enumerate().map(|(i, v)| (N[i], v)).collect();
        out.push(S::Seq(l.clone()));
        out.push(S::Tuple(l.clone()));
        out.push(S::TupleStruct(l.clone()));
        out.push(S::TupleVariant(l.clone()));
        out.push(S::Struct(named.clone()));
        out.push(S::StructVariant(named.clone()));
        for keys in [[S::Str("x"), S::Str(""), S::Str("z")], [S::Str("x"), S::Str("x"), S::Char('x')], [S::Char('c'), S::UnitVariant, S::Str("s")]] {
            out.push(S::Map(keys.iter().cloned().zip(l.iter().cloned()).collect()));
        }
    }
    out
}
fn values(r: &mut Run) {
    let l0 = leaves();
    let mut all = l0.clone();
    let l1 = wraps(&l0, 2);
    let small1 = wraps(&l0[..3], 1);
    let l2 = wraps(&small1, 2);
    all.extend(l1);
    all.extend(l2);
    if r.thorough {
        all.extend(wraps(&wraps(&small1[..12], 1), 2));
    }
    for v in &all {
        r.case(|| format!("{v:?}"), |o| {
            let (p, s) = provider(Want::All);
            let b = OpenTelemetryLogBridge::new(&p);
            let c = Case { level: 2, target: "t", message: "m", kvs: vec![("a", Value::from(1)), ("k", Value::from_serde(v)), ("z", Value::from(true))], place: PLACES[0] };
            log(&b, &c);
            let mut attrs = vec![("a".to_string(), "i1".to_string()), ("z".to_string(), "btrue".to_string())];
            attrs.extend(want(v).map(|x| ("k".to_string(), x)));
            let e = expected(&c, attrs, Around::Nothing);
            o.step(&e.attrs);
            judge(&s, &[e.clone()])?;
            o.outcome(&e);
            Ok(())
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C47", "log-structured-values", values)]
}
