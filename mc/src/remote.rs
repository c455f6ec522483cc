//! The Jaeger remote sampler under concurrency (C53): spans sampled by several threads while the
//! strategy is polled and the last handles are dropped.
use crate::arun::McRt;
use mcstd::explore::{scenario, Scenario};
use mcstd::mc;
use mcstd::real::fmt;
use mcstd::real::sync::Mutex as RMutex;
use opentelemetry::trace::{Link, SamplingDecision, SamplingResult, SpanKind, TraceId, TraceState};
use opentelemetry::{Context, KeyValue};
use opentelemetry_http::{Bytes, HttpClient, HttpError, Request, Response};
use opentelemetry_sdk::runtime::Runtime;
use opentelemetry_sdk::trace::{Sampler, ShouldSample};
use std::sync::Arc;
use std::time::Duration;

const INTERVAL: u64 = 10_000;
#[derive(Default)]
struct Seen {
    asked: usize,
    ended: bool,
    default_asked: usize,
}
type Log = Arc<RMutex<Seen>>;
struct Client {
    rt: McRt,
    late: u64,
    replies: Vec<&'static str>,
    log: Log,
}
impl fmt::Debug for Client {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Client")
    }
}
impl Drop for Client {
    fn drop(&mut self) {
        self.log.lock().unwrap().ended = true;
    }
}
#[async_trait::async_trait]
impl HttpClient for Client {
    async fn send_bytes(&self, _: Request<Bytes>) -> Result<Response<Bytes>, HttpError> {
        let n = {
            let mut g = self.log.lock().unwrap();
            g.asked += 1;
            g.asked - 1
        };
        mc::log(format!("poll {n}"));
        mc::step("client.send");
        if self.late > 0 {
            self.rt.delay(Duration::from_millis(self.late)).await;
        }
        mc::log(format!("answer {n}"));
        match self.replies[n.min(self.replies.len() - 1)] {
            "" => Err("connection refused".into()),
            b => Ok(Response::builder().status(200).body(Bytes::from(b)).unwrap()),
        }
    }
}
#[derive(Clone)]
struct Def(Log);
impl fmt::Debug for Def {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Def")
    }
}
impl ShouldSample for Def {
    fn should_sample(&self, _: Option<&Context>, _: TraceId, _: &str, _: &SpanKind, _: &[KeyValue], _: &[Link]) -> SamplingResult {
        self.0.lock().unwrap().default_asked += 1;
        SamplingResult { decision: SamplingDecision::RecordOnly, attributes: vec![], trace_state: TraceState::default() }
    }
}
const NEVER: &str = r#"{"strategyType":"PROBABILISTIC","probabilisticSampling":{"samplingRate":0.0}}"#;
const ALWAYS: &str = r#"{"strategyType":"PROBABILISTIC","probabilisticSampling":{"samplingRate":1.0}}"#;
const RATE1: &str = r#"{"strategyType":"RATE_LIMITING","rateLimitingSampling":{"maxTracesPerSecond":1}}"#;
const EMPTY: &str = r#"{"strategyType":"PROBABILISTIC"}"#;
const OPS: &str = r#"{"strategyType":"PROBABILISTIC","operationSampling":{"defaultSamplingProbability":0.0,"defaultLowerBoundTracesPerSecond":0.0,"defaultUpperBoundTracesPerSecond":0.0,"perOperationStrategies":[{"operation":"a","probabilisticSampling":{"samplingRate":1.0}}]}}"#;

fn mk(rt: &McRt, log: &Log, size: f64, late: u64, replies: &[&'static str]) -> Sampler {
    let c = Client { rt: rt.clone(), late, replies: replies.to_vec(), log: log.clone() };
    Sampler::jaeger_remote(rt.clone(), c, Def(log.clone()), "svc")
        .with_update_interval(Duration::from_millis(INTERVAL))
        .with_leaky_bucket_size(size)
        .build()
        .unwrap()
}
fn ask(s: &Sampler, name: &str) -> SamplingDecision {
    s.should_sample(None, TraceId::from(u128::MAX), name, &SpanKind::Internal, &[], &[]).decision
}
fn sleep(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms))
}

/// However many threads ask, the limit admits what the bucket holds.
fn limit(threads: usize, calls: usize, size: usize) -> Scenario {
    let name: &'static str = Box::leak(format!("remote.limit_{threads}x{calls}_of_{size}").into_boxed_str());
    scenario("C53", name, 4, 6, move || {
        let (rt, log) = (McRt::default(), Log::default());
        let s = mk(&rt, &log, size as f64, 0, &[RATE1]);
        sleep(INTERVAL + INTERVAL / 2);
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let s = s.clone();
                std::thread::spawn(move || (0..calls).filter(|_| ask(&s, "a") == SamplingDecision::RecordAndSample).count())
            })
            .collect();
        let got: Vec<usize> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        let n: usize = got.iter().sum();
        if n != size.min(threads * calls) {
            mc::violation(format!("{n} of {} concurrent spans were sampled with a limit of {size}", threads * calls));
        }
        if log.lock().unwrap().default_asked > 0 {
            mc::violation("the default sampler was asked although a rate limit is in force".into());
        }
        rt.stop();
        format!("{got:?}")
    })
    .with(|c| c.early_timers = false)
}
/// Spans started while an answer arrives follow the old or the new strategy, later ones the new one.
fn change(name: &'static str, replies: &'static [&'static str], old: &'static [(&'static str, bool)], new: &'static [(&'static str, bool)]) -> Scenario {
    scenario("C53", name, 4, 6, move || {
        let (rt, log) = (McRt::default(), Log::default());
        let s = mk(&rt, &log, 8.0, 0, replies);
        sleep(INTERVAL + INTERVAL / 2);
        let hs: Vec<_> = (0..2)
            .map(|_| {
                let s = s.clone();
                std::thread::spawn(move || {
                    sleep(INTERVAL / 2);
                    let mut seen = vec![];
                    for _ in 0..2 {
                        for (i, (n, o)) in old.iter().enumerate() {
                            let d = ask(&s, n);
                            if d == SamplingDecision::RecordOnly {
                                mc::violation("the default sampler decided although a strategy is in force".into());
                            }
                            let d = d == SamplingDecision::RecordAndSample;
                            if d != *o && d != new[i].1 {
                                mc::violation(format!("span {n:?} sampled: {d}, neither the old nor the new strategy says so"));
                            }
                            seen.push(d);
                        }
                    }
                    seen
                })
            })
            .collect();
        let got: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        sleep(INTERVAL / 2);
        for (n, w) in new {
            let d = ask(&s, n) == SamplingDecision::RecordAndSample;
            if d != *w {
                mc::violation(format!("span {n:?} sampled: {d}, after the new strategy had arrived"));
            }
        }
        if log.lock().unwrap().default_asked > 0 {
            mc::violation("the default sampler was asked although a strategy is in force".into());
        }
        rt.stop();
        format!("{got:?}")
    })
    .with(|c| c.early_timers = false)
}
/// The polling task ends when the last handle goes, wherever it is at that time.
fn gone(name: &'static str, late: u64, at: u64) -> Scenario {
    scenario("C53", name, 4, 6, move || {
        let (rt, log) = (McRt::default(), Log::default());
        let s = mk(&rt, &log, 2.0, late, &[ALWAYS]);
        let hs: Vec<_> = (0..2)
            .map(|_| {
                let s = s.clone();
                std::thread::spawn(move || {
                    sleep(at);
                    ask(&s, "a");
                    drop(s);
                })
            })
            .collect();
        drop(s);
        for h in hs {
            h.join().unwrap();
        }
        let n = log.lock().unwrap().asked;
        sleep(2 * INTERVAL);
        let g = log.lock().unwrap();
        if !g.ended {
            mc::violation("the polling task still runs two intervals after the last handle of the sampler was dropped".into());
        }
        if g.asked > n + 1 {
            mc::violation(format!("{} polls after the last handle of the sampler was dropped", g.asked - n));
        }
        format!("{n} {}", g.asked)
    })
    .with(|c| c.early_timers = false)
}
pub fn scenarios() -> Vec<Scenario> {
    vec![
        limit(2, 2, 2),
        limit(3, 1, 1),
        limit(3, 2, 3),
        change("remote.never_to_always", &[NEVER, ALWAYS], &[("a", false)], &[("a", true)]),
        change("remote.to_operations", &[NEVER, OPS], &[("a", false), ("b", false)], &[("a", true), ("b", false)]),
        change("remote.answer_without_strategy", &[ALWAYS, EMPTY], &[("a", true)], &[("a", true)]),
        change("remote.failed_poll", &[ALWAYS, ""], &[("a", true)], &[("a", true)]),
        change("remote.limit_kept", &[RATE1, RATE1], &[("a", true)], &[("a", true)]),
        gone("remote.drop_while_waiting", 0, INTERVAL / 2),
        gone("remote.drop_at_poll", 0, INTERVAL),
        gone("remote.drop_while_polling", 500, INTERVAL + 250),
        gone("remote.drop_at_answer", 500, INTERVAL + 500),
    ]
}
