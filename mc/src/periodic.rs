//! Periodic metric readers (threaded: C13, on an async runtime: C17).
//! Every recorded "item" is one addition of `1 << id` to a delta counter, so the collected sum
//! names the items of the interval.
use crate::arun::McRt;
use crate::metrics::rm;
use crate::spans::{sdk, st};
use crate::util::*;
use mcstd::explore::{scenario, Scenario};
use mcstd::mc;
use opentelemetry::metrics::{Counter, MeterProvider as _};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::periodic_reader_with_async_runtime::PeriodicReader as AsyncReader;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{PeriodicReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::runtime::Runtime;
use std::sync::Arc;
use std::time::Duration;

pub const INTERVAL: u64 = 1000;

fn ids(r: &ResourceMetrics) -> Vec<u32> {
    let mut v = Vec::new();
    for s in &r.scope_metrics {
        for m in &s.metrics {
            match &m.data {
                AggregatedMetrics::U64(MetricData::Sum(d)) => {
                    for p in &d.data_points {
                        let x = p.value;
                        if x >> 40 != 0 {
                            mc::violation(format!("counter value {x}"));
                        }
                        v.extend((0..40).filter(|i| x >> i & 1 == 1));
                    }
                }
                o => mc::violation(format!("unexpected data {o:?}")),
            }
        }
    }
    v
}

struct Met {
    rec: Arc<Rec>,
    rt: Option<McRt>,
}
impl PushMetricExporter for Met {
    async fn export(&self, r: &mut ResourceMetrics) -> OTelSdkResult {
        let v = ids(r);
        match &self.rt {
            None => sdk(self.rec.export(v)),
            Some(rt) => {
                let g = self.rec.begin(v);
                loop {
                    match g.wait() {
                        Some(0) => break,
                        Some(ms) => {
                            rt.delay(Duration::from_millis(ms)).await;
                            break;
                        }
                        None => rt.delay(Duration::from_millis(1)).await,
                    }
                }
                sdk(g.finish())
            }
        }
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        sdk(self.rec.shutdown())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Delta
    }
}

struct Ps {
    p: SdkMeterProvider,
    c: Counter<u64>,
    /// drive flush/shutdown through this reader handle instead of the provider
    direct: Option<Box<dyn MetricReader>>,
}
impl Sys for Ps {
    fn rec(&self, id: u32) {
        self.c.add(1 << id, &[]);
    }
    fn flush(&self) -> Result<(), String> {
        match &self.direct {
            Some(r) => st(r.force_flush()),
            None => st(self.p.force_flush()),
        }
    }
    fn shutdown(&self) -> Result<(), String> {
        match &self.direct {
            Some(r) => st(r.shutdown()),
            None => st(self.p.shutdown()),
        }
    }
}
fn sys(p: SdkMeterProvider, direct: Option<Box<dyn MetricReader>>) -> Arc<dyn Sys> {
    let c = p.meter("m").u64_counter("c").build();
    Arc::new(Ps { p, c, direct })
}

#[derive(Clone, Copy)]
enum How {
    Thread,
    ThreadDirect,
    Async,
    AsyncDirect,
}
use How::*;

fn mk(how: How, rec: &Arc<Rec>, rt: &McRt) -> Arc<dyn Sys> {
    let i = Duration::from_millis(INTERVAL);
    match how {
        Thread | ThreadDirect => {
            let r = PeriodicReader::builder(Met { rec: rec.clone(), rt: None }).with_interval(i).build();
            let d = r.clone();
            let p = SdkMeterProvider::builder().with_reader(r).build();
            sys(p, if let ThreadDirect = how { Some(Box::new(d)) } else { None })
        }
        Async | AsyncDirect => {
            let r = AsyncReader::builder(Met { rec: rec.clone(), rt: Some(rt.clone()) }, rt.clone())
                .with_interval(i)
                .with_timeout(Duration::from_millis(500))
                .build();
            let d = r.clone();
            let p = SdkMeterProvider::builder().with_reader(r).build();
            sys(p, if let AsyncDirect = how { Some(Box::new(d)) } else { None })
        }
    }
}

use Op::*;
fn s(p: &'static str, name: &str, q: u32, t: u32, how: How, mode: ExpMode, threads: Vec<Vec<Op>>, end: Vec<Op>, want: Want) -> Scenario {
    let n: &'static str = Box::leak(
        format!("{}.{name}", match how { Thread => "pr", ThreadDirect => "prd", Async => "apr", AsyncDirect => "aprd" }).into_boxed_str(),
    );
    scenario(p, n, q, t, move || {
        let lim = Limits { queue: 1000, batch: 1000 };
        let rec = Rec::new(mode);
        let rt = McRt::default();
        let x = mk(how, &rec, &rt);
        drive(x, &rec, &threads, &end);
        let ev = rec.events();
        rt.stop();
        judge(&ev, &lim, Want { any_error: true, ..want });
        judge_settled(&ev, &lim);
        brief(&ev)
    })
}

/// exports happen on a fixed schedule: one per interval in which something was measured
fn schedule(p: &'static str, name: &'static str, how: How, q: u32, t: u32) -> Scenario {
    scenario(p, name, q, t, move || {
        let rec = Rec::new(ExpMode::Ok);
        let rt = McRt::default();
        let x = mk(how, &rec, &rt);
        let mut ops = Vec::new();
        for i in 0..4 {
            ops.extend([R(2 * i), Z(INTERVAL / 2), R(2 * i + 1), Z(INTERVAL / 2)]);
        }
        ops.push(Z(INTERVAL / 4));
        do_ops(&*x, &rec, &ops);
        let ev = rec.events();
        let times: Vec<u64> = ev.iter().filter_map(|e| if let Ev::Exp(_, t) = e { Some(*t / 1_000_000) } else { None }).collect();
        let want: Vec<u64> = (1..=4).map(|k| k * INTERVAL).collect();
        let ok = times.len() == want.len() && times.iter().zip(&want).all(|(a, b)| a >= b && a - b <= 20);
        if !ok {
            mc::violation(format!("exports at {times:?} ms instead of once per interval at {want:?}; history {ev:?}"));
        }
        do_ops(&*x, &rec, &[S]);
        drop(x);
        let ev = rec.events();
        rt.stop();
        judge(&ev, &Limits { queue: 1000, batch: 1000 }, Want { any_error: true, ..ALL });
        brief(&ev)
    })
    .with(|c| c.early_timers = false)
}

/// Exports of a cumulative exporter, by time only: one per interval and one per flush, whatever points
/// in time are chosen for flushing.
#[derive(Clone)]
struct Times(Arc<Rec>);
impl PushMetricExporter for Times {
    async fn export(&self, _: &mut ResourceMetrics) -> OTelSdkResult {
        sdk(self.0.export(vec![0]))
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        sdk(self.0.shutdown())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Cumulative
    }
}
const FLUSH_AT: [u64; 6] = [400, 800, 1200, 1600, 1900, 2500];
fn flushed_schedule(p: &'static str, name: &'static str, a_sync: bool, slow: u64, flushes: bool, q: u32, t: u32) -> Scenario {
    scenario(p, name, q, t, move || {
        let rec = Rec::new(if slow > 0 { ExpMode::Slow(slow) } else { ExpMode::Ok });
        let rt = McRt::default();
        let i = Duration::from_millis(INTERVAL);
        let e = Times(rec.clone());
        let b = SdkMeterProvider::builder();
        let pr = if a_sync {
            b.with_reader(AsyncReader::builder(e, rt.clone()).with_interval(i).with_timeout(Duration::from_millis(500)).build()).build()
        } else {
            b.with_reader(PeriodicReader::builder(e).with_interval(i).build()).build()
        };
        let c = pr.meter("m").u64_counter("c").build();
        c.add(1, &[]);
        let mut want: Vec<u64> = (1..=3).map(|k| k * INTERVAL).collect();
        let mut now = 0;
        if flushes {
            for at in FLUSH_AT {
                if mc::choose(2, 0) == 1 {
                    std::thread::sleep(Duration::from_millis(at - now));
                    now = at;
                    if let Err(e) = pr.force_flush() {
                        mc::violation(format!("force_flush at {at} ms: {e:?}"));
                    }
                    want.push(at);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(3 * INTERVAL + INTERVAL / 4 - now));
        want.sort();
        let ev = rec.events();
        let times: Vec<u64> = ev.iter().filter_map(|e| if let Ev::Exp(_, t) = e { Some(*t / 1_000_000) } else { None }).collect();
        let ok = times.len() == want.len() && times.iter().zip(&want).all(|(a, b)| a >= b && a - b <= 20);
        if !ok {
            mc::violation(format!("exports at {times:?} ms instead of {want:?}: once per interval and once per flush"));
        }
        let _ = pr.shutdown();
        rt.stop();
        format!("{times:?}")
    })
    .with(|c| c.early_timers = false)
}

fn family(p: &'static str, a: How, d: How) -> Vec<Scenario> {
    use ExpMode as M;
    let report = Want { report: true, ..ALL };
    let exact = |x: Scenario| x.with(|c| c.early_timers = false);
    let threaded = matches!(a, Thread);
    let mut v = vec![
        s(p, "two_measurers", 2, 3, a, M::Ok, vec![vec![R(1), R(2), F], vec![R(3), R(4)]], vec![S], ALL),
        s(p, "flush_vs_flush", 2, 3, a, M::Ok, vec![vec![R(1), F, R(2)], vec![R(3), F]], vec![F, S], ALL),
        s(p, "flush_vs_shutdown", 2, 3, a, M::Ok, vec![vec![R(1), F], vec![R(2), S]], vec![S, F], ALL),
        s(p, "flush_vs_shutdown", 2, 3, d, M::Ok, vec![vec![R(1), F], vec![R(2), S]], vec![S, F], ALL),
        s(p, "two_shutdowns", 2, 3, a, M::Ok, vec![vec![R(1), S], vec![R(2), S]], vec![S, F], ALL),
        s(p, "two_shutdowns", 2, 3, d, M::Ok, vec![vec![R(1), S], vec![R(2), S]], vec![S, F], ALL),
        s(p, "measure_after_shutdown", 2, 3, a, M::Ok, vec![vec![R(1), S, R(2), F], vec![R(3), R(4)]], vec![R(5), F, S], ALL),
        s(p, "drop_only", 2, 3, d, M::Ok, vec![vec![R(1), R(2)], vec![R(3), F]], vec![], ALL),
        exact(s(p, "timer", 2, 3, a, M::Ok, vec![vec![R(1), Z(INTERVAL + 10), Settled, R(2), F, R(3), Z(INTERVAL + 10), Settled], vec![R(4)]], vec![S], ALL)),
        exact(s(p, "timer_error", 2, 3, a, M::Fail(0), vec![vec![R(1), Z(INTERVAL + 10), R(2), Z(INTERVAL + 10), Settled]], vec![S], ALL)),
        exact(s(p, "flush_reports", 2, 3, a, M::Fail(0), vec![vec![R(1), F, R(2), F]], vec![S], report)),
        exact(s(p, "flush_reports", 2, 3, d, M::Fail(0), vec![vec![R(1), F, R(2), F]], vec![S], report)),
        exact(s(p, "shutdown_reports", 2, 3, a, M::Fail(0), vec![vec![R(1), S]], vec![S, F], report)),
        exact(s(p, "shutdown_reports", 2, 3, d, M::Fail(0), vec![vec![R(1), S]], vec![S, F], report)),
        s(p, "shutdown_error", 2, 3, a, M::FailShutdown, vec![vec![R(1), F]], vec![S, S], ALL),
        s(p, "slow", 2, 3, a, M::Slow(300), vec![vec![R(1), F, R(2)], vec![R(3), Z(900), R(4)]], vec![F, S], ALL),
        s(p, "empty", 3, 4, a, M::Ok, vec![vec![F, S]], vec![F, S], ALL),
        s(p, "empty", 3, 4, d, M::Ok, vec![vec![F, S]], vec![F, S], ALL),
        schedule(p, if threaded { "pr.schedule" } else { "apr.schedule" }, a, 2, 3),
    ];
    v.push(flushed_schedule(p, if threaded { "pr.flushed_schedule" } else { "apr.flushed_schedule" }, !threaded, 0, true, 1, 2));
    if threaded {
        v.push(flushed_schedule(p, "pr.slow_schedule", false, 300, false, 2, 3));
        v.push(s(p, "shutdown_timeout", 2, 3, a, M::Slow(7_000), vec![vec![R(1), S]], vec![S], Want { exporter_shutdown: false, ..ALL }));
        v.push(s(p, "shutdown_timeout", 2, 3, d, M::Gate, vec![vec![R(1), S, Open]], vec![S], Want { exporter_shutdown: false, ..ALL }));
    } else {
        v.push(exact(s(p, "export_timeout", 2, 3, a, M::Slow(7_000), vec![vec![R(1), F, R(2), F]], vec![S], report)));
        v.push(exact(s(p, "stuck_once", 2, 3, a, M::Gate, vec![vec![R(1), F, Open, R(2), Z(INTERVAL + 10), R(3)]], vec![F, S], report)));
    }
    v
}

pub fn scenarios() -> Vec<Scenario> {
    let _ = rm;
    let mut v = family("C13", Thread, ThreadDirect);
    v.extend(family("C17", Async, AsyncDirect));
    v
}
