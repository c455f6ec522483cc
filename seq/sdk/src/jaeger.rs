//! C53: the Jaeger remote sampler, driven by a hand-cranked runtime, a scripted HTTP client and a virtual clock.
use bmc::*;
use opentelemetry::trace::{
    Link, SamplingDecision, SamplingResult, SpanContext, SpanId, SpanKind, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer as _, TracerProvider as _,
};
use opentelemetry::{Context, KeyValue};
use opentelemetry_http::{Bytes, HttpClient, HttpError, Request, Response};
use opentelemetry_sdk::runtime::{Runtime, RuntimeChannel, TrySend, TrySendError};
use opentelemetry_sdk::trace::{Sampler, SdkTracerProvider, ShouldSample};
use std::cell::Cell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Wake, Waker};
use std::time::Duration;

// ---- virtual clock: the wall clock may be set back, the monotonic one may not ----
thread_local! {
    static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}
#[repr(C)]
pub struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// # Safety
/// `ts` is valid, as the C function requires.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    match CLOCK.try_with(|c| c.get()).ok().flatten() {
        Some((wall, mono)) => {
            let t = if clk == 0 || clk == 5 { wall } else { mono };
            *ts = Timespec { s: t / 1_000_000_000, n: t % 1_000_000_000 };
            0
        }
        None => syscall(228, clk as i64, ts) as i32,
    }
}
const T0: i64 = 1_800_000_000_000_000_000;
const MS: i64 = 1_000_000;
const SEC: i64 = 1000 * MS;

// ---- the runtime ----
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}
type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
#[derive(Default)]
struct RtIn {
    mono: i64,
    tasks: Vec<(Option<Task>, Arc<Flag>)>,
    fresh: Vec<Task>,
    timers: Vec<(i64, u64, Waker)>,
    next: u64,
}
#[derive(Clone, Default)]
struct Rt(Arc<Mutex<RtIn>>);
impl std::fmt::Debug for Rt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Rt")
    }
}
impl Drop for Clockless {
    fn drop(&mut self) {
        CLOCK.with(|c| c.set(None));
    }
}
/// puts the real clock back
struct Clockless;
fn clocked() -> Clockless {
    CLOCK.with(|c| c.set(Some((T0, 1_000 * SEC))));
    Clockless
}
fn wall() -> i64 {
    CLOCK.with(|c| c.get()).unwrap().0
}
impl Rt {
    /// runs every task that was woken until nothing more happens
    fn pump(&self) {
        for _ in 0..10_000 {
            let mut g = self.0.lock().unwrap();
            let fresh: Vec<Task> = g.fresh.drain(..).collect();
            for t in fresh {
                g.tasks.push((Some(t), Arc::new(Flag(AtomicBool::new(true)))));
            }
            let Some(i) = g.tasks.iter().position(|(t, f)| t.is_some() && f.0.swap(false, SeqCst)) else { return };
            let mut t = g.tasks[i].0.take().unwrap();
            let w = Waker::from(g.tasks[i].1.clone());
            drop(g);
            if t.as_mut().poll(&mut Cx::from_waker(&w)).is_pending() {
                self.0.lock().unwrap().tasks[i].0 = Some(t);
            }
        }
        panic!("a background task never comes to rest");
    }
    /// lets time pass: every timer fires when it is due
    fn advance(&self, d: i64) {
        self.pump();
        let end = self.0.lock().unwrap().mono + d;
        loop {
            let (w, at) = {
                let mut g = self.0.lock().unwrap();
                match (0..g.timers.len()).min_by_key(|&i| g.timers[i].0) {
                    Some(i) if g.timers[i].0 <= end => {
                        let t = g.timers.remove(i);
                        (Some(t.2), t.0)
                    }
                    _ => (None, end),
                }
            };
            let step = {
                let mut g = self.0.lock().unwrap();
                let s = (at - g.mono).max(0);
                g.mono += s;
                s
            };
            CLOCK.with(|c| c.set(c.get().map(|(w, m)| (w + step, m + step))));
            match w {
                Some(w) => w.wake(),
                None => break,
            }
            self.pump();
        }
    }
    fn now(&self) -> i64 {
        self.0.lock().unwrap().mono
    }
    /// background tasks that have not ended
    fn alive(&self) -> usize {
        let g = self.0.lock().unwrap();
        g.fresh.len() + g.tasks.iter().filter(|t| t.0.is_some()).count()
    }
    fn end(&self) {
        let (a, b) = {
            let mut g = self.0.lock().unwrap();
            (std::mem::take(&mut g.fresh), std::mem::take(&mut g.tasks))
        };
        drop((a, b));
    }
}
impl Runtime for Rt {
    fn spawn<F>(&self, future: F)
    where
        F: Future<Output = ()> + Send + 'static,
    {
        self.0.lock().unwrap().fresh.push(Box::pin(future));
    }
    fn delay(&self, d: Duration) -> impl Future<Output = ()> + Send + 'static {
        Delay { rt: self.clone(), at: self.now() + d.as_nanos() as i64, id: None }
    }
}
struct Delay {
    rt: Rt,
    at: i64,
    id: Option<u64>,
}
impl Future for Delay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        let mut g = self.rt.0.lock().unwrap();
        let me = self.id;
        g.timers.retain(|t| Some(t.1) != me);
        if g.mono >= self.at {
            return Poll::Ready(());
        }
        g.next += 1;
        let id = g.next;
        g.timers.push((self.at, id, cx.waker().clone()));
        drop(g);
        self.id = Some(id);
        Poll::Pending
    }
}
impl Drop for Delay {
    fn drop(&mut self) {
        let me = self.id;
        if me.is_some() {
            self.rt.0.lock().unwrap().timers.retain(|t| t.1 != me.unwrap());
        }
    }
}
/// the sampler needs no message channel
#[derive(Debug)]
struct NoTx<T>(std::marker::PhantomData<fn(T)>);
impl<T: std::fmt::Debug + Send> TrySend for NoTx<T> {
    type Message = T;
    fn try_send(&self, _: T) -> Result<(), TrySendError> {
        Err(TrySendError::ChannelClosed)
    }
}
struct NoRx<T>(std::marker::PhantomData<fn() -> T>);
impl<T> futures_core::Stream for NoRx<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<Option<T>> {
        Poll::Ready(None)
    }
}
impl RuntimeChannel for Rt {
    type Receiver<T: std::fmt::Debug + Send> = NoRx<T>;
    type Sender<T: std::fmt::Debug + Send> = NoTx<T>;
    fn batch_message_channel<T: std::fmt::Debug + Send>(&self, _: usize) -> (NoTx<T>, NoRx<T>) {
        (NoTx(Default::default()), NoRx(Default::default()))
    }
}

// ---- the strategy server ----
#[derive(Clone, Debug, PartialEq)]
enum Reply {
    Http(u16, String),
    Unreachable,
    /// the answer takes this long
    Late(i64, Box<Reply>),
    Never,
}
#[derive(Clone, Debug)]
struct Asked {
    at: i64,
    method: String,
    uri: String,
    body: usize,
}
#[derive(Clone)]
struct Client {
    rt: Rt,
    script: Arc<Mutex<VecDeque<Reply>>>,
    asked: Arc<Mutex<Vec<Asked>>>,
}
impl std::fmt::Debug for Client {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Client")
    }
}
impl Client {
    fn new(rt: &Rt) -> Client {
        Client { rt: rt.clone(), script: Default::default(), asked: Default::default() }
    }
}
#[async_trait::async_trait]
impl HttpClient for Client {
    async fn send_bytes(&self, q: Request<Bytes>) -> Result<Response<Bytes>, HttpError> {
        self.asked.lock().unwrap().push(Asked { at: self.rt.now(), method: q.method().to_string(), uri: q.uri().to_string(), body: q.body().len() });
        let mut r = self.script.lock().unwrap().pop_front().unwrap_or(Reply::Unreachable);
        if let Reply::Late(d, x) = r {
            self.rt.delay(Duration::from_nanos(d as u64)).await;
            r = *x;
        }
        match r {
            Reply::Http(code, body) => Ok(Response::builder().status(code).body(Bytes::from(body)).unwrap()),
            Reply::Never => std::future::pending().await,
            _ => Err("connection refused".into()),
        }
    }
}

// ---- replies and what they mean ----
#[derive(Clone, Debug, PartialEq)]
enum Strategy {
    Prob(f64),
    Rate(i32),
    PerOp(f64, Vec<(&'static str, f64)>),
}
use Strategy::*;
fn prob_json(p: f64) -> String {
    format!(r#""probabilisticSampling":{{"samplingRate":{p:?}}}"#)
}
fn rate_json(n: i32) -> String {
    format!(r#""rateLimitingSampling":{{"maxTracesPerSecond":{n}}}"#)
}
fn perop_json(d: f64, ops: &[(&str, f64)]) -> String {
    let o: Vec<String> = ops.iter().map(|(n, p)| format!(r#"{{"operation":{},{}}}"#, js(n), prob_json(*p))).collect();
    format!(
        r#""operationSampling":{{"defaultSamplingProbability":{d:?},"defaultLowerBoundTracesPerSecond":0.5,"perOperationStrategies":[{}],"defaultUpperBoundTracesPerSecond":2.0}}"#,
        o.join(",")
    )
}
fn body(s: &Strategy) -> String {
    match s {
        Prob(p) => format!(r#"{{"strategyType":"PROBABILISTIC",{}}}"#, prob_json(*p)),
        Rate(n) => format!(r#"{{"strategyType":"RATE_LIMITING",{}}}"#, rate_json(*n)),
        PerOp(d, o) => format!(r#"{{"strategyType":"PROBABILISTIC",{}}}"#, perop_json(*d, o)),
    }
}
fn good(s: Strategy) -> (Reply, Option<Strategy>) {
    (Reply::Http(200, body(&s)), Some(s))
}
fn replies() -> Vec<(Reply, Option<Strategy>)> {
    let bad = |c: u16, b: &str| (Reply::Http(c, b.to_string()), None);
    let op1 = PerOp(0.25, vec![("a", 1.0), ("b", 0.0)]);
    vec![
        good(Prob(0.0)),
        good(Prob(0.5)),
        good(Prob(1.0)),
        good(PerOp(1.0, vec![("a", 0.0)])),
        good(op1.clone()),
        good(Rate(1)),
        good(Rate(2)),
        // answers that carry no usable strategy
        bad(200, r#"{"strategyType":"PROBABILISTIC"}"#),
        bad(200, r#"{"strategyType":"PROBABILISTIC","probabilisticSampling":null,"rateLimitingSampling":null,"operationSampling":null}"#),
        bad(200, ""),
        bad(200, "<html>"),
        bad(200, r#"{"strategyType":"PROBABILISTIC","probabilisticSampling":{"samplingRate":"x"}}"#),
        bad(500, &body(&Prob(1.0))),
        bad(404, &body(&Prob(0.0))),
        (Reply::Unreachable, None),
        // the operation strategies win over what older clients read
        (
            Reply::Http(200, format!(r#"{{"strategyType":"PROBABILISTIC",{},{}}}"#, prob_json(0.75), perop_json(0.25, &[("a", 1.0), ("b", 0.0)]))),
            Some(op1),
        ),
        (Reply::Late(2 * SEC, Box::new(Reply::Http(200, body(&Prob(1.0))))), Some(Prob(1.0))),
    ]
}

// ---- the default sampler: answers in a way no strategy does, and notes what it was asked ----
type Query = (bool, TraceId, String, SpanKind, Vec<KeyValue>, usize);
#[derive(Clone, Debug, Default)]
struct Def(Arc<Mutex<Vec<Query>>>);
impl ShouldSample for Def {
    fn should_sample(&self, p: Option<&Context>, t: TraceId, n: &str, k: &SpanKind, a: &[KeyValue], l: &[Link]) -> SamplingResult {
        self.0.lock().unwrap().push((p.is_some(), t, n.to_string(), k.clone(), a.to_vec(), l.len()));
        SamplingResult {
            decision: SamplingDecision::RecordOnly,
            attributes: vec![KeyValue::new("by", "default")],
            trace_state: TraceState::from_key_value([("def", "1")]).unwrap(),
        }
    }
}
fn ids() -> Vec<TraceId> {
    [1u64, 1 << 61, (1 << 62) - 1, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX].map(|lo| TraceId::from((7u128) << 64 | lo as u128)).to_vec()
}
fn by_ratio(p: f64, id: TraceId) -> SamplingDecision {
    Sampler::TraceIdRatioBased(p).should_sample(None, id, "", &SpanKind::Internal, &[], &[]).decision
}
fn parent(k: u8) -> Option<Context> {
    match k {
        0 => None,
        1 => Some(Context::new()),
        _ => Some(Context::new().with_remote_span_context(SpanContext::new(
            TraceId::from(5u128),
            SpanId::from(6),
            TraceFlags::new(k & 1),
            true,
            TraceState::from_key_value([("up", "x")]).unwrap(),
        ))),
    }
}

/// Token bucket, known to within [lo, hi] tokens.
#[derive(Clone, Debug)]
struct Bucket {
    size: f64,
    lo: f64,
    hi: f64,
    wall: i64,
    mono: i64,
    rates: Vec<f64>,
}
impl Bucket {
    fn new(size: f64, rate: f64, now: (i64, i64), sure: bool) -> Bucket {
        Bucket { size, lo: if sure { size } else { 0.0 }, hi: size, wall: now.0, mono: now.1, rates: vec![rate] }
    }
    fn allow(&mut self, now: (i64, i64), got: bool) -> R {
        let (w, m) = ((now.0 - self.wall) as f64 / 1e9, (now.1 - self.mono) as f64 / 1e9);
        let slow = self.rates.iter().copied().fold(f64::MAX, f64::min);
        let fast = self.rates.iter().copied().fold(f64::MIN, f64::max);
        let back = w < 0.0;
        self.lo = (self.lo + slow * w.min(m).max(0.0)).min(self.size);
        self.hi = (self.hi + fast * m.max(w)).min(self.size);
        self.wall = now.0;
        self.mono = now.1;
        self.rates = vec![*self.rates.last().unwrap()];
        if back {
            // the clock was set back: this one decision is open
            self.hi = if got { (self.hi - 1.0).max(0.0) } else { self.hi };
            self.lo = if got { (self.lo - 1.0).max(0.0) } else { self.lo };
            return Ok(());
        }
        ensure!(!got || self.hi >= 1.0, "sampled although the limit allows only {:?} of a trace now", self.hi);
        ensure!(got || self.lo < 1.0, "not sampled although the limit allows {:?} traces now", self.lo);
        if got {
            self.hi -= 1.0;
            self.lo = (self.lo - 1.0).max(0.0);
        } else {
            self.hi = self.hi.min(1.0 - 1e-9);
        }
        Ok(())
    }
}
#[derive(Clone, Debug)]
enum M {
    Default,
    Stateless(Strategy),
    Limited(Bucket),
}
struct World {
    _c: Clockless,
    rt: Rt,
    client: Client,
    def: Def,
    sampler: Sampler,
    m: M,
    size: f64,
    limited_before: bool,
}
const INTERVAL: i64 = 10 * SEC;
impl World {
    fn new(size: f64) -> World {
        let _c = clocked();
        let rt = Rt::default();
        let client = Client::new(&rt);
        let def = Def::default();
        let sampler = Sampler::jaeger_remote(rt.clone(), client.clone(), def.clone(), "svc")
            .with_update_interval(Duration::from_nanos(INTERVAL as u64))
            .with_endpoint("http://collector:5778/sampling")
            .with_leaky_bucket_size(size)
            .build()
            .unwrap();
        rt.pump();
        World { _c, rt, client, def, sampler, m: M::Default, size, limited_before: false }
    }
    fn now(&self) -> (i64, i64) {
        (wall(), self.rt.now())
    }
    fn learn(&mut self, s: &Strategy) {
        self.m = match (s, &mut self.m) {
            (Rate(n), M::Limited(b)) => {
                let mut b = b.clone();
                b.rates.push(*n as f64);
                M::Limited(b)
            }
            (Rate(n), _) => {
                let b = Bucket::new(self.size, *n as f64, (wall(), self.rt.now()), !self.limited_before);
                self.limited_before = true;
                M::Limited(b)
            }
            (s, _) => M::Stateless(s.clone()),
        };
    }
    /// one poll of the server, with this answer
    fn fetch(&mut self, r: &(Reply, Option<Strategy>)) -> R {
        let n = self.client.asked.lock().unwrap().len();
        self.client.script.lock().unwrap().push_back(r.0.clone());
        self.rt.advance(INTERVAL);
        if let Reply::Late(d, _) = r.0 {
            self.probe().map_err(|e| keyed(e.key, format!("before the answer arrived: {}", e.msg)))?;
            self.rt.advance(d);
        }
        same!(self.client.asked.lock().unwrap().len(), n + 1, "requests after one more update interval");
        if let Some(s) = &r.1 {
            self.learn(s);
        }
        Ok(())
    }
    fn ask(&self, par: u8, id: TraceId, name: &str) -> Result<SamplingResult, Fail> {
        let kind = SpanKind::Producer;
        let attrs = [KeyValue::new("k", 1)];
        let links = [Link::with_context(SpanContext::NONE), Link::with_context(SpanContext::NONE)];
        self.def.0.lock().unwrap().clear();
        let p = parent(par);
        let got = self.sampler.should_sample(p.as_ref(), id, name, &kind, &attrs, &links);
        let asked = std::mem::take(&mut *self.def.0.lock().unwrap());
        if let M::Default = self.m {
            same!(asked, vec![(par > 0, id, name.to_string(), kind, attrs.to_vec(), links.len())], "what the default sampler was asked");
            same!(got.attributes, vec![KeyValue::new("by", "default")], "attributes from the default sampler");
        } else {
            ensure!(asked.is_empty(), "the default sampler was asked although a strategy is in force");
            ensure!(got.attributes.is_empty(), "unexpected attributes {:?}", got.attributes);
            same!(got.trace_state.header(), if par >= 2 { "up=x" } else { "" }.to_string(), "trace state");
        }
        Ok(got)
    }
    fn one(&mut self) -> Result<bool, Fail> {
        let d = self.ask(0, TraceId::from(9u128), "a")?.decision;
        ensure!(d != SamplingDecision::RecordOnly, "decision {d:?} under a rate limit");
        let got = d == SamplingDecision::RecordAndSample;
        let now = self.now();
        match &mut self.m {
            M::Limited(b) => b.allow(now, got)?,
            _ => unreachable!(),
        }
        Ok(got)
    }
    fn probe(&mut self) -> R {
        if let M::Limited(_) = self.m {
            for _ in 0..3 {
                self.one()?;
            }
            return Ok(());
        }
        for name in ["a", "b", "other", ""] {
            for id in ids() {
                for par in 0..4 {
                    let got = self.ask(par, id, name)?.decision;
                    let want = match &self.m {
                        M::Default => SamplingDecision::RecordOnly,
                        M::Stateless(Prob(p)) => by_ratio(*p, id),
                        M::Stateless(PerOp(d, ops)) => by_ratio(ops.iter().find(|o| o.0 == name).map(|o| o.1).unwrap_or(*d), id),
                        _ => unreachable!(),
                    };
                    same!(got, want, "decision for span {name:?}, trace id {id}, parent {par}, under {:?}", self.m);
                }
            }
        }
        Ok(())
    }
}
impl Drop for World {
    fn drop(&mut self) {
        self.rt.end();
    }
}

/// Every sequence of server answers: the strategy in force is that of the last good answer.
fn strategies(r: &mut Run) {
    let rs = replies();
    let all: Vec<usize> = (0..rs.len()).collect();
    let show = |s: &[usize]| s.iter().map(|&i| format!("{:?}", rs[i].0)).collect::<Vec<_>>().join(" | ");
    r.sequences(&all, r.pick(4, 5), show, |s, o| {
        let mut w = World::new(2.0);
        w.probe()?;
        for &i in s {
            w.fetch(&rs[i]).map_err(|e| keyed(e.key, format!("after {:?}: {}", rs[i].0, e.msg)))?;
            w.probe().map_err(|e| keyed(e.key, format!("after {:?}: {}", rs[i].0, e.msg)))?;
            o.step(&format!("{:?}", w.m));
        }
        o.outcome(&format!("{:?}", std::mem::discriminant(&w.m)));
        Ok(())
    });
}
#[derive(Clone, Copy, Debug)]
enum L {
    Sample,
    Wait(i64),
    Back(i64),
    Limit(i32),
    Other,
}
/// Every sequence of sampling calls, waits, clock changes and new limits: a token bucket.
fn limits(r: &mut Run) {
    use L::*;
    let alphabet = [Sample, Wait(250), Wait(1000), Wait(3500), Back(2000), Limit(1), Limit(4), Limit(0), Other];
    for (size, first) in [(1.0, 1), (2.0, 1), (2.0, 4), (3.0, 2), (0.5, 2)] {
        let depth = r.pick(6, 7);
        r.sequences(&alphabet, depth, |s| format!("bucket {size} rate {first}: {s:?}"), |s, o| {
            let mut w = World::new(size);
            w.fetch(&good(Rate(first)))?;
            let mut line = vec![];
            for l in s {
                match *l {
                    Sample => {
                        if matches!(w.m, M::Limited(_)) {
                            line.push(w.one()?)
                        }
                    }
                    Wait(ms) => w.advance_quiet(ms * MS),
                    Back(ms) => CLOCK.with(|c| c.set(c.get().map(|(a, b)| (a - ms * MS, b)))),
                    Limit(n) => w.fetch(&good(Rate(n)))?,
                    L::Other => w.fetch(&good(Prob(1.0)))?,
                }
                o.step(&format!("{:?}", w.m));
            }
            // spans that keep coming use the limit up, whatever came before
            if let M::Limited(_) = w.m {
                for _ in 0..10 {
                    w.advance_quiet(250 * MS);
                    line.push(w.one()?);
                }
            }
            o.outcome(&line.iter().filter(|b| **b).count());
            Ok(())
        });
    }
}
impl World {
    /// lets time pass; polls that fall into it fail
    fn advance_quiet(&mut self, d: i64) {
        self.rt.advance(d);
    }
}

fn unq(s: &str) -> String {
    let b = s.as_bytes();
    let (mut i, mut o) = (0, vec![]);
    while i < b.len() {
        match b[i] {
            b'+' => o.push(b' '),
            b'%' => {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 2;
            }
            c => o.push(c),
        }
        i += 1;
    }
    String::from_utf8(o).unwrap()
}
/// Every endpoint, service name and interval: what is asked, and when.
fn requests(r: &mut Run) {
    let endpoints: [(Option<&str>, &str, &[(&str, &str)]); 8] = [
        (None, "http://localhost:5778/sampling", &[]),
        (Some("http://h:1/s"), "http://h:1/s", &[]),
        (Some("https://h.example/a/b"), "https://h.example/a/b", &[]),
        (Some("http://h/s?x=1"), "http://h/s", &[("x", "1")]),
        (Some("http://h/s?service=old"), "http://h/s", &[]),
        (Some("http://h/s?service=old&x=1&y=a%20b&service=older"), "http://h/s", &[("x", "1"), ("y", "a b")]),
        (Some("http://h/s?x=1&service=old"), "http://h/s", &[("x", "1")]),
        (Some("http://h/s?myservice=1&services=2"), "http://h/s", &[("myservice", "1"), ("services", "2")]),
    ];
    let services = ["svc", "a b", "a&b=c", "ü", "100%", "service", "a+b", "?#/", " "];
    for (given, base, query) in endpoints {
        for svc in services {
            for every in [None, Some(1i64), Some(1000), Some(90_000)] {
                r.case(|| format!("endpoint {given:?} service {svc:?} interval {every:?} ms"), |o| {
                    let _c = clocked();
                    let rt = Rt::default();
                    let client = Client::new(&rt);
                    let mut b = Sampler::jaeger_remote(rt.clone(), client.clone(), Sampler::AlwaysOn, svc);
                    if let Some(e) = given {
                        b = b.with_endpoint(e);
                    }
                    if let Some(ms) = every {
                        b = b.with_update_interval(Duration::from_millis(ms as u64));
                    }
                    let s = b.build().map_err(|e| keyed("", format!("build failed: {e:?}")))?;
                    let every = every.unwrap_or(300_000) * MS;
                    for k in 1..=4 {
                        rt.advance(every - 1);
                        same!(client.asked.lock().unwrap().len(), k - 1, "requests just before interval {k} is over");
                        rt.advance(1);
                        same!(client.asked.lock().unwrap().len(), k, "requests when interval {k} is over");
                    }
                    for a in client.asked.lock().unwrap().iter() {
                        same!(a.method, "GET", "method");
                        same!(a.body, 0, "body length");
                        let (p, q) = a.uri.split_once('?').unwrap_or((&a.uri, ""));
                        same!(p.trim_end_matches('/'), base, "address asked");
                        let got: Vec<(String, String)> =
                            q.split('&').map(|kv| kv.split_once('=').map(|(k, v)| (unq(k), unq(v))).unwrap_or((unq(kv), String::new()))).collect();
                        let mut names: Vec<&(String, String)> = got.iter().filter(|kv| kv.0 == "service").collect();
                        same!(names.pop(), Some(&("service".to_string(), svc.to_string())), "service asked for");
                        ensure!(names.is_empty(), "the request names more than one service: {}", a.uri);
                        let mut rest: Vec<(String, String)> = got.iter().filter(|kv| kv.0 != "service").cloned().collect();
                        let mut want: Vec<(String, String)> = query.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                        rest.sort();
                        want.sort();
                        same!(rest, want, "the endpoint's own query");
                    }
                    o.step(&(base, svc));
                    o.outcome(&client.asked.lock().unwrap()[0].uri);
                    drop(s);
                    rt.end();
                    Ok(())
                });
            }
        }
    }
    for (e, s) in [("", "svc"), ("http://h/s", ""), ("", "")] {
        r.case(|| format!("endpoint {e:?} service {s:?}"), |o| {
            let _c = clocked();
            let rt = Rt::default();
            let b = Sampler::jaeger_remote(rt.clone(), Client::new(&rt), Sampler::AlwaysOn, s).with_endpoint(e).build();
            ensure!(b.is_err(), "an empty endpoint or service name was accepted");
            same!(rt.alive(), 0, "tasks left behind by a failed build");
            o.step(&(e, s));
            Ok(())
        });
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Holder {
    Sampler,
    Clone,
    Provider,
    Tracer,
    Nested,
}
/// The server is polled as long as, and only as long as, something can still use the sampler.
fn lifetime(r: &mut Run) {
    use Holder::*;
    let all = [Sampler, Clone, Provider, Tracer, Nested];
    for set in subsets(all.len()).into_iter().filter(|s| !s.is_empty()) {
        let hs: Vec<Holder> = set.iter().map(|&i| all[i]).collect();
        for order in perms(&hs) {
            for wait in [0, INTERVAL / 2, INTERVAL] {
                for state in 0..3 {
                    let order = order.clone();
                    r.case(|| format!("held by {hs:?}, dropped in order {order:?}, {wait} ns apart, server {}", ["answers", "fails", "is slow"][state]), |o| {
                        let _c = clocked();
                        let rt = Rt::default();
                        let client = Client::new(&rt);
                        let reply = || match state {
                            0 => Reply::Http(200, body(&Prob(1.0))),
                            1 => Reply::Unreachable,
                            _ => Reply::Late(INTERVAL / 4, Box::new(Reply::Http(200, body(&Prob(1.0))))),
                        };
                        client.script.lock().unwrap().extend((0..40).map(|_| reply()));
                        let s = opentelemetry_sdk::trace::Sampler::jaeger_remote(rt.clone(), client.clone(), opentelemetry_sdk::trace::Sampler::AlwaysOff, "svc")
                            .with_update_interval(Duration::from_nanos(INTERVAL as u64))
                            .build()
                            .unwrap();
                        let has = |h: Holder| hs.contains(&h);
                        let mut clone = has(Clone).then(|| s.clone());
                        let mut nested: Option<Box<dyn ShouldSample>> = has(Nested).then(|| Box::new(opentelemetry_sdk::trace::Sampler::ParentBased(Box::new(s.clone()))) as Box<dyn ShouldSample>);
                        let mut provider = (has(Provider) || has(Tracer)).then(|| SdkTracerProvider::builder().with_sampler(s.clone()).build());
                        let mut tracer = has(Tracer).then(|| provider.as_ref().unwrap().tracer("t"));
                        if !has(Provider) {
                            provider = None;
                        }
                        let mut sampler = Some(s);
                        if !has(Sampler) {
                            sampler = None;
                        }
                        let mut left = hs.len();
                        for h in &order {
                            rt.advance(wait);
                            let n = client.asked.lock().unwrap().len();
                            rt.advance(2 * INTERVAL);
                            let more = client.asked.lock().unwrap().len() - n;
                            ensure!(more >= 1 && more <= 3, "{more} requests in two intervals while the sampler is in use");
                            same!(rt.alive(), 1, "background tasks while the sampler is in use");
                            match h {
                                Sampler => sampler = None,
                                Clone => clone = None,
                                Nested => nested = None,
                                Provider => provider = None,
                                Tracer => tracer = None,
                            }
                            left -= 1;
                            o.step(&(left, format!("{h:?}")));
                        }
                        let _ = (&sampler, &clone, &nested, &provider, &tracer);
                        // a request that is under way may still be answered, and one interval may still run out
                        let n = client.asked.lock().unwrap().len();
                        rt.advance(2 * INTERVAL);
                        same!(rt.alive(), 0, "background tasks two intervals after the last user of the sampler is gone");
                        ensure!(client.asked.lock().unwrap().len() <= n + 1, "the server is still polled after the last user of the sampler is gone");
                        o.outcome(&n);
                        Ok(())
                    });
                }
            }
        }
    }
}
/// A tracer that samples through the remote strategy records exactly the spans it selects.
fn traced(r: &mut Run) {
    let rs = replies();
    let all: Vec<usize> = (0..rs.len()).filter(|&i| !matches!(rs[i].1, Some(Rate(_)))).collect();
    for based in [false, true] {
        r.sequences(&all, r.pick(3, 4), |s| format!("parent based {based}: {:?}", s.iter().map(|&i| &rs[i].0).collect::<Vec<_>>()), |s, o| {
            let mut w = World::new(2.0);
            for &i in s {
                w.fetch(&rs[i])?;
            }
            let b = SdkTracerProvider::builder();
            let b = if based { b.with_sampler(Sampler::ParentBased(Box::new(w.sampler.clone()))) } else { b.with_sampler(w.sampler.clone()) };
            let p = b.build();
            let t = p.tracer("t");
            for name in ["a", "b", "other"] {
                for par in [0u8, 2, 3] {
                    for _ in 0..2 {
                        use opentelemetry::trace::Span as _;
                        let span = t.start_with_context(name, &parent(par).unwrap_or_default());
                        let sc = span.span_context().clone();
                        let want = match &w.m {
                            _ if based && par == 2 => SamplingDecision::Drop,
                            _ if based && par == 3 => SamplingDecision::RecordAndSample,
                            M::Default => SamplingDecision::RecordOnly,
                            M::Stateless(Prob(p)) => by_ratio(*p, sc.trace_id()),
                            M::Stateless(PerOp(d, ops)) => by_ratio(ops.iter().find(|o| o.0 == name).map(|o| o.1).unwrap_or(*d), sc.trace_id()),
                            _ => unreachable!(),
                        };
                        same!(span.is_recording(), want != SamplingDecision::Drop, "span {name:?} under {:?} is recording", w.m);
                        same!(sc.is_sampled(), want == SamplingDecision::RecordAndSample, "span {name:?} under {:?} is sampled", w.m);
                    }
                }
            }
            o.step(&format!("{:?}", w.m));
            o.outcome(&format!("{:?}", w.m));
            Ok(())
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![
        family("C53", "strategies", strategies),
        family("C53", "limits", limits),
        family("C53", "requests", requests),
        family("C53", "lifetime", lifetime),
        family("C53", "traced", traced),
    ]
}
