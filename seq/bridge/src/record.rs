//! What arrives at a log processor, and what should.
use opentelemetry::logs::{AnyValue, Severity};
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, ContextGuard, InstrumentationScope};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{LogProcessor, SdkLogRecord, SdkLoggerProvider};
use std::sync::{Arc, Mutex};

/// Which events a processor says it wants.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Want {
    All,
    Nothing,
    /// at least this severity
    Severe(i32),
    /// this target only
    Target(&'static str),
}
impl Want {
    pub fn wants(self, sev: i32, target: &str) -> bool {
        match self {
            Want::All => true,
            Want::Nothing => false,
            Want::Severe(s) => sev >= s,
            Want::Target(t) => t == target,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Sink {
    pub got: Arc<Mutex<Vec<(SdkLogRecord, InstrumentationScope)>>>,
    pub asked: Arc<Mutex<Vec<(i32, String, Option<String>)>>>,
    pub want: Want,
}
impl LogProcessor for Sink {
    fn emit(&self, r: &mut SdkLogRecord, s: &InstrumentationScope) {
        self.got.lock().unwrap().push((r.clone(), s.clone()));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
    fn event_enabled(&self, level: Severity, target: &str, name: Option<&str>) -> bool {
        self.asked.lock().unwrap().push((level as i32, target.to_string(), name.map(String::from)));
        self.want.wants(level as i32, target)
    }
}
pub fn provider(want: Want) -> (SdkLoggerProvider, Sink) {
    let s = Sink { got: Default::default(), asked: Default::default(), want };
    (SdkLoggerProvider::builder().with_log_processor(s.clone()).build(), s)
}
/// A value in a form that can be compared: type and exact content, maps in order.
pub fn show(v: &AnyValue) -> String {
    match v {
        AnyValue::Int(i) => format!("i{i}"),
        AnyValue::Double(d) => format!("d{:x}", if d.is_nan() { f64::NAN.to_bits() } else { d.to_bits() }),
        AnyValue::String(s) => format!("s{:?}", s.as_str()),
        AnyValue::Boolean(b) => format!("b{b}"),
        AnyValue::Bytes(b) => format!("y{b:?}"),
        AnyValue::ListAny(l) => format!("[{}]", l.iter().map(show).collect::<Vec<_>>().join(",")),
        AnyValue::Map(m) => {
            let mut l: Vec<_> = m.iter().map(|(k, v)| format!("{:?}:{}", k.as_str(), show(v))).collect();
            l.sort();
            format!("{{{}}}", l.join(","))
        }
        o => format!("?{o:?}"),
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Expected {
    pub severity: i32,
    pub text: &'static str,
    pub target: String,
    pub name: Option<&'static str>,
    pub body: Option<String>,
    /// sorted
    pub attrs: Vec<(String, String)>,
    pub ids: Option<(u128, u64, Option<u8>)>,
}
pub fn judge(sink: &Sink, want: &[Expected]) -> Result<(), String> {
    let got = std::mem::take(&mut *sink.got.lock().unwrap());
    if got.len() != want.len() {
        return Err(format!("{} records instead of {}", got.len(), want.len()));
    }
    for ((r, s), w) in got.iter().zip(want) {
        let mut attrs: Vec<_> = r.attributes_iter().map(|(k, v)| (k.as_str().to_string(), show(v))).collect();
        attrs.sort();
        let mut wa = w.attrs.clone();
        wa.sort();
        if attrs != wa {
            return Err(format!("attributes {attrs:?} instead of {wa:?}"));
        }
        let body = r.body().map(show);
        if body != w.body {
            return Err(format!("body {body:?} instead of {:?}", w.body));
        }
        let sev = r.severity_number().map(|s| s as i32);
        if sev != Some(w.severity) || r.severity_text() != Some(w.text) {
            return Err(format!("severity {sev:?} {:?} instead of {} {}", r.severity_text(), w.severity, w.text));
        }
        if r.target().map(|t| t.to_string()) != Some(w.target.clone()) {
            return Err(format!("target {:?} instead of {:?}", r.target(), w.target));
        }
        if r.event_name() != w.name {
            return Err(format!("event name {:?} instead of {:?}", r.event_name(), w.name));
        }
        let ids = r.trace_context().map(|c| (u128::from_be_bytes(c.trace_id.to_bytes()), u64::from_be_bytes(c.span_id.to_bytes()), c.trace_flags.map(|f| f.to_u8())));
        if ids != w.ids {
            return Err(format!("trace context {ids:?} instead of {:?}", w.ids));
        }
        if r.observed_timestamp().is_none() {
            return Err("no observed timestamp".into());
        }
        if s.name() != "" || s.version().is_some() || s.attributes().count() != 0 {
            return Err(format!("scope {s:?}"));
        }
    }
    Ok(())
}
/// The context an event happens in.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Around {
    Nothing,
    Span(u8),
    Suppressed,
    SuppressedSpan,
}
pub const AROUND: [Around; 5] = [Around::Nothing, Around::Span(1), Around::Span(0), Around::Suppressed, Around::SuppressedSpan];
impl Around {
    pub fn enter(self) -> Option<ContextGuard> {
        let span = |f: u8| Context::new().with_remote_span_context(SpanContext::new(TraceId::from(7u128), SpanId::from(9u64), TraceFlags::new(f), true, TraceState::default()));
        match self {
            Around::Nothing => None,
            Around::Span(f) => Some(span(f).attach()),
            Around::Suppressed => Some(Context::new().with_telemetry_suppressed().attach()),
            Around::SuppressedSpan => Some(span(1).with_telemetry_suppressed().attach()),
        }
    }
    pub fn suppressed(self) -> bool {
        matches!(self, Around::Suppressed | Around::SuppressedSpan)
    }
    pub fn ids(self) -> Option<(u128, u64, Option<u8>)> {
        match self {
            Around::Span(f) => Some((7, 9, Some(f))),
            _ => None,
        }
    }
}
