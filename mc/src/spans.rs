//! Batch and simple span processors.
use crate::util::*;
use mcstd::explore::{scenario, Scenario};
use opentelemetry::trace::{SpanContext, SpanId, SpanKind, Status, TraceFlags, TraceId, TraceState};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::trace::{
    BatchConfigBuilder, BatchSpanProcessor, SimpleSpanProcessor, SpanData, SpanEvents, SpanExporter, SpanLinks, SpanProcessor,
};
use opentelemetry_sdk::Resource;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

#[derive(Debug)]
pub struct SpanExp(pub Arc<Rec>);
pub fn sdk(r: Result<(), String>) -> OTelSdkResult {
    r.map_err(OTelSdkError::InternalFailure)
}
pub fn st(r: OTelSdkResult) -> Result<(), String> {
    r.map_err(|e| format!("{e:?}"))
}
impl SpanExporter for SpanExp {
    async fn export(&self, batch: Vec<SpanData>) -> OTelSdkResult {
        sdk(self.0.export(batch.iter().map(|s| s.name.parse().unwrap()).collect()))
    }
    fn shutdown(&mut self) -> OTelSdkResult {
        sdk(self.0.shutdown())
    }
    fn set_resource(&mut self, r: &Resource) {
        let v = r.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(",");
        self.0.i.lock().unwrap().resource = Some(v);
    }
}

pub fn span(id: u32, sampled: bool) -> SpanData {
    SpanData {
        span_context: SpanContext::new(
            TraceId::from_u128(7),
            SpanId::from_u64(id as u64 + 1),
            if sampled { TraceFlags::SAMPLED } else { TraceFlags::default() },
            false,
            TraceState::default(),
        ),
        parent_span_id: SpanId::INVALID,
        span_kind: SpanKind::Internal,
        name: id.to_string().into(),
        start_time: SystemTime::UNIX_EPOCH,
        end_time: SystemTime::UNIX_EPOCH,
        attributes: Vec::new(),
        dropped_attributes_count: 0,
        events: SpanEvents::default(),
        links: SpanLinks::default(),
        status: Status::Unset,
        instrumentation_scope: Default::default(),
    }
}

struct Sp<P>(P);
impl<P: SpanProcessor> Sys for Sp<P> {
    fn rec(&self, id: u32) {
        self.0.on_end(span(id, true))
    }
    fn flush(&self) -> Result<(), String> {
        st(self.0.force_flush())
    }
    fn shutdown(&self) -> Result<(), String> {
        st(self.0.shutdown())
    }
}

pub const DELAY: u64 = 1000;
fn bsp(rec: &Arc<Rec>, lim: &Limits) -> Arc<dyn Sys> {
    Arc::new(Sp(BatchSpanProcessor::builder(SpanExp(rec.clone()))
        .with_batch_config(
            BatchConfigBuilder::default()
                .with_max_queue_size(lim.queue)
                .with_max_export_batch_size(lim.batch)
                .with_scheduled_delay(Duration::from_millis(DELAY))
                .build(),
        )
        .build()))
}

use Op::*;

/// one "batch processor" scenario
fn batch(
    p: &'static str, name: &'static str, q: u32, t: u32, mk: fn(&Arc<Rec>, &Limits) -> Arc<dyn Sys>,
    queue: usize, batch: usize, mode: ExpMode, threads: Vec<Vec<Op>>, end: Vec<Op>, want: Want,
) -> Scenario {
    scenario(p, name, q, t, move || {
        let lim = Limits { queue, batch };
        let rec = Rec::new(mode);
        let sys = mk(&rec, &lim);
        drive(sys, &rec, &threads, &end);
        let ev = rec.events();
        judge(&ev, &lim, want);
        judge_settled(&ev, &lim);
        if let ExpMode::Slow(600_000) = mode {
            let t = rec.i.lock().unwrap().longest / 1_000_000;
            if t > 60_000 {
                mcstd::mc::violation(format!("a flush or shutdown took {t} ms against an exporter that does not answer; history {ev:?}"));
            }
        }
        brief(&ev)
    })
}

/// no flush or shutdown takes more than a minute; timers fire in time
fn stalled(s: Scenario) -> Scenario {
    s.with(|c| c.early_timers = false)
}
pub fn batch_scenarios(pd: &'static str, pf: &'static str, prefix: &str, mk: fn(&Arc<Rec>, &Limits) -> Arc<dyn Sys>) -> Vec<Scenario> {
    use ExpMode as M;
    let n = |s: &str| -> &'static str { Box::leak(format!("{prefix}.{s}").into_boxed_str()) };
    let report = Want { report: true, ..ALL };
    let sticky = Want { exporter_shutdown: false, sticky: prefix == "bsp", ..ALL };
    vec![
        // delivery
        batch(pd, n("two_enders"), 3, 4, mk, 4, 2, M::Ok, vec![vec![R(1), R(2)], vec![R(3)]], vec![S], ALL),
        batch(pd, n("batch_of_one"), 3, 4, mk, 8, 1, M::Ok, vec![vec![R(1), R(2)], vec![R(3), F]], vec![S], ALL),
        batch(pd, n("queue_full"), 2, 3, mk, 2, 2, M::Ok, vec![vec![R(1), R(2), R(3)], vec![R(4), R(5)]], vec![S], ALL),
        batch(pd, n("exporter_stuck"), 2, 3, mk, 3, 2, M::Gate, vec![vec![R(1), R(2), Z(5), R(3), R(4), R(5), R(6), Open]], vec![F, R(7), S], ALL),
        batch(pd, n("backlog"), 1, 2, mk, 16, 2, M::Ok, vec![(1..=7).map(R).collect()], vec![S], ALL),
        batch(pd, n("export_error"), 3, 4, mk, 4, 4, M::Fail(0), vec![vec![R(1), F], vec![R(2), F]], vec![R(3), S], ALL),
        batch(pd, n("timer"), 2, 3, mk, 8, 3, M::Ok, vec![vec![R(1), R(2), R(3), Z(1), Settled, R(4), Z(2 * DELAY + 10), Settled, R(5), Z(2 * DELAY + 10), Settled]], vec![S], ALL).with(|c| c.early_timers = false),
        batch(pd, n("slow_exporter"), 2, 3, mk, 8, 2, M::Slow(300), vec![vec![R(1), R(2), R(3)], vec![R(4), R(5), Z(4 * DELAY), Settled]], vec![R(6), Z(4 * DELAY), Settled, S], ALL).with(|c| c.early_timers = false),
        // a batch that gathers while the previous one is being exported is due at once, not at the next tick
        batch(pd, n("gather_while_exporting"), 2, 3, mk, 8, 2, M::Slow(300), vec![vec![R(1), R(2), Z(100), R(3), R(4), Z(600), Settled]], vec![S], ALL).with(|c| c.early_timers = false),
        batch(pd, n("gather_two_threads"), 2, 3, mk, 8, 2, M::Slow(300), vec![vec![R(1), Z(100), R(2), Z(600), Settled], vec![R(3), Z(100), R(4)]], vec![S], ALL).with(|c| c.early_timers = false),
        batch(pd, n("gather_backlog"), 2, 2, mk, 8, 2, M::Slow(100), vec![vec![R(1), R(2), Z(50), R(3), R(4), R(5), R(6), Z(600), Settled]], vec![S], ALL).with(|c| c.early_timers = false),
        // flush / shutdown
        batch(pf, n("flush_backlog"), 3, 4, mk, 8, 2, M::Ok, vec![vec![R(1), R(2), R(3), R(4), R(5), F], vec![R(6)]], vec![S, S], ALL),
        batch(pf, n("two_shutdowns"), 3, 4, mk, 8, 4, M::Ok, vec![vec![R(1), S], vec![R(2), S]], vec![S, F], ALL),
        batch(pf, n("flush_vs_shutdown"), 3, 4, mk, 8, 2, M::Ok, vec![vec![R(1), F], vec![R(2), R(3), S]], vec![S, F], ALL),
        batch(pf, n("flush_error"), 2, 3, mk, 8, 2, M::Fail(0), vec![vec![R(1), R(2), R(3), F]], vec![S, S], ALL),
        batch(pf, n("shutdown_error"), 2, 3, mk, 8, 2, M::FailShutdown, vec![vec![R(1), F]], vec![S, S], ALL),
        batch(pf, n("flush_timeout"), 2, 3, mk, 8, 8, M::Slow(7_000), vec![vec![R(1), F], vec![Z(1), F]], vec![], ALL),
        batch(pf, n("shutdown_timeout"), 2, 2, mk, 8, 8, M::Slow(7_000), vec![vec![R(1), S]], vec![S, R(2), F, S], sticky),
        batch(pf, n("shutdown_timeout_later"), 1, 2, mk, 8, 8, M::Slow(7_000), vec![vec![R(1), S, Z(12_000), R(2), F, S, Z(12_000)]], vec![S], sticky).with(|c| c.early_timers = false),
        // the exporter stalls for ten minutes: nobody waits that long
        stalled(batch(pf, n("stalled"), 2, 3, mk, 8, 2, M::Slow(600_000), vec![vec![R(1), F, R(2), R(3), F], vec![R(4), Z(1), F]], vec![S, F, S], sticky)),
        stalled(batch(pf, n("stalled_shutdown"), 2, 3, mk, 8, 8, M::Slow(600_000), vec![vec![R(1), S], vec![R(2), S]], vec![S], sticky)),
        batch(pf, n("flush_reports"), 3, 4, mk, 8, 4, M::Fail(0), vec![vec![R(1), F, R(2), F]], vec![S], report).with(|c| c.early_timers = false),
        batch(pf, n("shutdown_reports"), 3, 4, mk, 8, 4, M::Fail(0), vec![vec![R(1), S]], vec![S], report).with(|c| c.early_timers = false),
        batch(pf, n("three_flushes"), 1, 2, mk, 4, 2, M::Ok, vec![vec![R(1), F], vec![R(2), F], vec![R(3), F]], vec![S], ALL),
        batch(pf, n("empty"), 2, 3, mk, 8, 2, M::Ok, vec![vec![F, S]], vec![F, S], ALL),
    ]
}

pub fn scenarios() -> Vec<Scenario> {
    batch_scenarios("C01", "C02", "bsp", bsp)
}
