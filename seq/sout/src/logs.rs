use crate::*;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::trace::{SpanId, TraceFlags, TraceId};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{LogBatch, LogExporter as _, LogProcessor, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_stdout::LogExporter;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, Default)]
struct Grab(Arc<Mutex<Vec<SdkLogRecord>>>);
impl LogProcessor for Grab {
    fn emit(&self, r: &mut SdkLogRecord, _: &InstrumentationScope) {
        self.0.lock().unwrap().push(r.clone());
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
#[derive(Clone, Copy, Debug)]
struct Shape {
    /// bits: event name, target, timestamp, observed timestamp, severity text, severity number, body
    fields: usize,
    /// none, ids, ids and flags
    trace: usize,
    attrs: usize,
    scope: usize,
}
struct Made {
    rec: SdkLogRecord,
    scope: InstrumentationScope,
    want: Vec<(String, bool)>,
}
fn made(f: &mut Fresh, s: Shape) -> Made {
    let g = Grab::default();
    let p = SdkLoggerProvider::builder().with_log_processor(g.clone()).build();
    let scope = f.scope(s.scope);
    let l = p.logger_with_scope(scope.clone());
    let mut r = l.create_log_record();
    let mut w = Want::default();
    w.scope(&scope);
    let has = |k: usize| s.fields >> k & 1 == 1;
    if has(0) {
        let n: &'static str = Box::leak(f.word().into_boxed_str());
        w.one(n);
        r.set_event_name(n);
    }
    if has(1) {
        let n = f.word();
        w.one(&n);
        r.set_target(n);
    }
    if s.trace > 0 {
        let (t, i) = (TraceId::from_bytes((0xabcd_u128 << 100 | f.num() as u128).to_be_bytes()), SpanId::from_bytes((0xcdef << 40 | f.num()).to_be_bytes()));
        w.one(t);
        w.one(i);
        r.set_trace_context(t, i, (s.trace == 2).then_some(TraceFlags::SAMPLED));
    }
    if has(2) {
        let t = f.time();
        w.one(stamp(t));
        r.set_timestamp(t);
    }
    // the logger sets it otherwise
    let t = f.time();
    if has(3) {
        w.one(stamp(t));
        r.set_observed_timestamp(t);
    }
    if has(4) {
        let n: &'static str = Box::leak(f.word().into_boxed_str());
        w.one(n);
        r.set_severity_text(n);
    }
    if has(5) {
        w.any("Fatal3");
        r.set_severity_number(Severity::Fatal3);
    }
    if has(6) {
        let b = f.word();
        w.one(&b);
        r.set_body(AnyValue::String(b.into()));
    }
    for k in 0..s.attrs {
        let key = f.word();
        w.one(&key);
        let v = match k % 4 {
            0 => AnyValue::String(f.word().into()),
            1 => AnyValue::Int(f.num() as i64),
            2 => AnyValue::Double(f.real()),
            _ => AnyValue::ListAny(Box::new(vec![AnyValue::Int(f.num() as i64), AnyValue::String(f.word().into())])),
        };
        match &v {
            AnyValue::String(s) => w.one(s),
            AnyValue::Int(i) => w.one(i),
            AnyValue::Double(d) => w.one(d),
            AnyValue::ListAny(l) => l.iter().for_each(|x| match x {
                AnyValue::Int(i) => w.one(i),
                AnyValue::String(s) => w.one(s),
                _ => unreachable!(),
            }),
            _ => unreachable!(),
        }
        r.add_attribute(key, v);
    }
    l.emit(r);
    let rec = g.0.lock().unwrap().remove(0);
    Made { rec, scope, want: w.0 }
}
const SOME: Shape = Shape { fields: 0b1111111, trace: 2, attrs: 2, scope: 1 };
fn export(e: &LogExporter, b: &[Made]) -> (OTelSdkResult, String) {
    let v: Vec<_> = b.iter().map(|m| (&m.rec, &m.scope)).collect();
    printed(|| now(e.export(LogBatch::new(&v))))
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Export(usize),
    Resource(usize),
    Shutdown,
}
use Op::*;
fn history(r: &mut Run) {
    let d = r.pick(4, 6);
    let ops = [Export(0), Export(1), Export(2), Resource(1), Resource(2), Shutdown];
    r.all_sequences(&ops, d, |s| format!("logs {s:?}"), |s, o| {
        let mut f = Fresh::default();
        let mut e = LogExporter::default();
        let mut res = f.resource(0);
        e.set_resource(&res);
        let (mut first, mut down) = (true, false);
        for op in s {
            match *op {
                Resource(k) => {
                    res = f.resource(k);
                    e.set_resource(&res);
                }
                Shutdown => {
                    e.shutdown().map_err(|e| e.to_string())?;
                    down = true;
                }
                Export(n) => {
                    let mut batch: Vec<Made> = (0..n).map(|_| made(&mut f, SOME)).collect();
                    let mut w = Want::default();
                    if first {
                        want_resource(&mut w, &res);
                    }
                    batch.iter_mut().for_each(|m| w.0.append(&mut m.want));
                    let (got, out) = export(&e, &batch);
                    if down {
                        ensure!(got.is_err(), "an export after shutdown succeeded");
                        same!(out, "", "printed after shutdown");
                    } else {
                        got.map_err(|e| e.to_string())?;
                        w.judge(&out)?;
                        first = false;
                    }
                }
            }
            o.step(&(first, down));
        }
        o.outcome(&(first, down, s.len()));
        Ok(())
    });
}
fn content(r: &mut Run) {
    let mut v = vec![];
    product(&[128, 3, r.pick(3, 7), r.pick(3, 8)], |i| v.push(Shape { fields: i[0], trace: i[1], attrs: i[2] * r.pick(3, 1), scope: i[3] }));
    for s in v {
        r.case(|| format!("{s:?} between other records"), |o| {
            let mut f = Fresh::default();
            let mut e = LogExporter::default();
            let res = f.resource(2);
            e.set_resource(&res);
            let mut batch = vec![made(&mut f, SOME), made(&mut f, s), made(&mut f, SOME)];
            let mut w = Want::default();
            want_resource(&mut w, &res);
            batch.iter_mut().for_each(|m| w.0.append(&mut m.want));
            let (got, out) = export(&e, &batch);
            got.map_err(|e| e.to_string())?;
            o.step(&w.0.len());
            o.outcome(&format!("{s:?}"));
            w.judge(&out)
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![serial("C54", "stdout_logs.history", history), serial("C54", "stdout_logs.content", content)]
}
