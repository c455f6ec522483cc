//! Batch processors on an async runtime (C16).
use crate::arun::McRt;
use crate::logs::{id_of, Lp};
use crate::spans::{sdk, st, DELAY};
use crate::util::*;
use mcstd::explore::{scenario, Scenario};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::log_processor_with_async_runtime::BatchLogProcessor;
use opentelemetry_sdk::logs::{BatchConfigBuilder as LogCfg, LogBatch, LogExporter};
use opentelemetry_sdk::runtime::Runtime;
use opentelemetry_sdk::trace::span_processor_with_async_runtime::BatchSpanProcessor;
use opentelemetry_sdk::trace::{BatchConfigBuilder as SpanCfg, SpanData, SpanExporter, SpanProcessor};
use std::sync::Arc;
use std::time::Duration;

struct Exp {
    rec: Arc<Rec>,
    rt: McRt,
}
impl mcstd::real::fmt::Debug for Exp {
    fn fmt(&self, f: &mut mcstd::real::fmt::Formatter<'_>) -> mcstd::real::fmt::Result {
        f.write_str("Exp")
    }
}
impl Exp {
    async fn go(&self, ids: Vec<u32>) -> OTelSdkResult {
        let g = self.rec.begin(ids);
        loop {
            match g.wait() {
                Some(0) => break,
                Some(ms) => {
                    self.rt.delay(Duration::from_millis(ms)).await;
                    break;
                }
                None => self.rt.delay(Duration::from_millis(1)).await,
            }
        }
        sdk(g.finish())
    }
}
impl SpanExporter for Exp {
    async fn export(&self, batch: Vec<SpanData>) -> OTelSdkResult {
        self.go(batch.iter().map(|s| s.name.parse().unwrap()).collect()).await
    }
    fn shutdown(&mut self) -> OTelSdkResult {
        sdk(self.rec.shutdown())
    }
}
impl LogExporter for Exp {
    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
        self.go(batch.iter().map(|(r, _)| id_of(r)).collect()).await
    }
    fn shutdown(&self) -> OTelSdkResult {
        sdk(self.rec.shutdown())
    }
}
struct Sp<P>(P);
impl<P: SpanProcessor> Sys for Sp<P> {
    fn rec(&self, id: u32) {
        self.0.on_end(crate::spans::span(id, true))
    }
    fn flush(&self) -> Result<(), String> {
        st(self.0.force_flush())
    }
    fn shutdown(&self) -> Result<(), String> {
        st(self.0.shutdown())
    }
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    Span(usize),
    Log,
}
const TIMEOUT: u64 = 500;
fn mk(how: How, rec: &Arc<Rec>, rt: &McRt, queue: usize, batch: usize) -> Arc<dyn Sys> {
    let e = Exp { rec: rec.clone(), rt: rt.clone() };
    let (delay, to) = (Duration::from_millis(DELAY), Duration::from_millis(TIMEOUT));
    match how {
        How::Span(n) => Arc::new(Sp(BatchSpanProcessor::builder(e, rt.clone())
            .with_batch_config(
                SpanCfg::default()
                    .with_max_queue_size(queue)
                    .with_max_export_batch_size(batch)
                    .with_scheduled_delay(delay)
                    .with_max_export_timeout(to)
                    .with_max_concurrent_exports(n)
                    .build(),
            )
            .build())),
        How::Log => Arc::new(Lp(BatchLogProcessor::builder(e, rt.clone())
            .with_batch_config(
                LogCfg::default()
                    .with_max_queue_size(queue)
                    .with_max_export_batch_size(batch)
                    .with_scheduled_delay(delay)
                    .with_max_export_timeout(to)
                    .build(),
            )
            .build())),
    }
}

use Op::*;
/// `room`: extra queue capacity beyond what the oracle assumes, for the control messages that share it
fn s(name: &str, q: u32, t: u32, how: How, queue: usize, room: usize, batch: usize, mode: ExpMode, threads: Vec<Vec<Op>>, end: Vec<Op>, want: Want) -> Scenario {
    let n: &'static str = Box::leak(
        format!("{}.{name}", match how { How::Span(1) => "absp".into(), How::Span(k) => format!("absp{k}"), How::Log => "ablp".to_string() }).into_boxed_str(),
    );
    scenario("C16", n, q, t, move || {
        let lim = Limits { queue, batch };
        let rec = if let How::Span(2) = how { Rec::concurrent(mode) } else { Rec::new(mode) };
        let rt = McRt::default();
        let x = mk(how, &rec, &rt, queue + room, batch);
        drive(x, &rec, &threads, &end);
        let ev = rec.events();
        rt.stop();
        judge(&ev, &lim, Want { any_error: true, ..want });
        judge_settled(&ev, &lim);
        brief(&ev)
    })
}

fn family(h: How) -> Vec<Scenario> {
    use ExpMode as M;
    let report = Want { report: true, ..ALL };
    let exact = |x: Scenario| x.with(|c| c.early_timers = false);
    vec![
        s("two_enders", 2, 3, h, 4, 4, 2, M::Ok, vec![vec![R(1), R(2)], vec![R(3)]], vec![S], ALL),
        s("batch_of_one", 2, 3, h, 4, 4, 1, M::Ok, vec![vec![R(1), R(2)], vec![R(3), F]], vec![S], ALL),
        s("queue_full", 2, 3, h, 2, 0, 2, M::Ok, vec![vec![R(1), R(2), R(3)], vec![R(4), R(5)]], vec![Z(5), S], ALL),
        s("stuck", 2, 3, h, 3, 0, 2, M::Gate, vec![vec![R(1), R(2), Z(5), R(3), R(4), R(5), R(6), Open]], vec![Z(5), F, R(7), S], ALL),
        s("export_error", 2, 3, h, 4, 4, 2, M::Fail(0), vec![vec![R(1), R(2), R(3), F], vec![R(4), F]], vec![R(5), S], ALL),
        exact(s("timer", 2, 3, h, 8, 4, 3, M::Ok, vec![vec![R(1), Z(DELAY + 10), Settled, R(2), R(3), R(4), Z(1), Settled, R(5), Z(DELAY + 10), Settled]], vec![S], ALL)),
        exact(s("slow_exporter", 2, 3, h, 8, 4, 2, M::Slow(300), vec![vec![R(1), R(2), R(3)], vec![R(4), R(5), Z(4 * DELAY), Settled]], vec![R(6), Z(4 * DELAY), Settled, S], ALL)),
        exact(s("gather_while_exporting", 2, 3, h, 8, 4, 2, M::Slow(300), vec![vec![R(1), R(2), Z(100), R(3), R(4), Z(600), Settled]], vec![S], ALL)),
        exact(s("gather_two_threads", 2, 3, h, 8, 4, 2, M::Slow(300), vec![vec![R(1), Z(100), R(2), Z(600), Settled], vec![R(3), Z(100), R(4)]], vec![S], ALL)),
        s("flush_backlog", 2, 3, h, 8, 4, 2, M::Ok, vec![vec![R(1), R(2), R(3), F], vec![R(4)]], vec![S, S], ALL),
        s("two_shutdowns", 2, 3, h, 8, 4, 4, M::Ok, vec![vec![R(1), S], vec![R(2), S]], vec![S, F], ALL),
        s("flush_vs_shutdown", 2, 3, h, 8, 4, 2, M::Ok, vec![vec![R(1), F], vec![R(2), R(3), S]], vec![S, F], ALL),
        exact(s("export_timeout", 2, 3, h, 8, 4, 8, M::Slow(7_000), vec![vec![R(1), F, R(2), F]], vec![R(3), S], report)),
        exact(s("timeout_then_ok", 2, 3, h, 8, 4, 2, M::Gate, vec![vec![R(1), R(2), R(3), Z(2 * TIMEOUT), Open, R(4), Z(DELAY + TIMEOUT), Settled]], vec![R(5), F, S], ALL)),
        exact(s("flush_reports", 2, 3, h, 8, 4, 4, M::Fail(0), vec![vec![R(1), F, R(2), F]], vec![S], report)),
        exact(s("shutdown_reports", 2, 3, h, 8, 4, 4, M::Fail(0), vec![vec![R(1), S]], vec![S], report)),
        s("shutdown_error", 2, 3, h, 8, 4, 4, M::FailShutdown, vec![vec![R(1), F]], vec![S, S], ALL),
        s("three_flushes", 1, 2, h, 4, 4, 2, M::Ok, vec![vec![R(1), F], vec![R(2), F], vec![R(3), F]], vec![S], ALL),
        s("empty", 2, 3, h, 8, 4, 2, M::Ok, vec![vec![F, S]], vec![F, S], ALL),
    ]
}
pub fn scenarios() -> Vec<Scenario> {
    let mut v = family(How::Span(1));
    v.extend(family(How::Span(2)));
    v.extend(family(How::Log));
    v
}
