//! Provider life cycles: tracer, logger and meter providers with recording processors / readers,
//! clones on several threads, shutdown / flush / drop races.  Also the simple processors.
use crate::logs::LogExp;
use crate::spans::{st, SpanExp};
use crate::util::*;
use mcstd::explore::{scenario, Scenario};
use mcstd::mc;
use mcstd::real::sync::Mutex as RMutex;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::trace::{Span as _, Tracer as _, TracerProvider as _};
use opentelemetry::{Context, InstrumentationScope};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{LogProcessor, SdkLogRecord, SdkLoggerProvider, SimpleLogProcessor};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Temporality};
use opentelemetry_sdk::trace::{Sampler, SdkTracerProvider, SimpleSpanProcessor, Span, SpanData, SpanProcessor};
use std::sync::{Arc, Weak};
use std::time::Duration;

/// processor number, event
#[derive(Clone, Debug, PartialEq)]
pub enum Pe {
    /// calls seen by processor p
    OnStart(usize, u32),
    Item(usize, u32),
    PFlush(usize),
    PShutdown(usize),
    /// calls made by the threads
    Begin(u32),
    Started(u32, bool),
    End(u32),
    Ended(u32),
    Flush(usize),
    Flushed(usize, Result<(), String>),
    Shut(usize),
    ShutDone(usize, Result<(), String>),
    Dropped,
}

#[derive(Default, Debug)]
pub struct H {
    ev: RMutex<Vec<Pe>>,
    n: RMutex<usize>,
}
impl H {
    fn push(&self, e: Pe) {
        mc::log(format!("{e:?}"));
        self.ev.lock().unwrap().push(e);
    }
    fn next(&self) -> usize {
        let mut g = self.n.lock().unwrap();
        *g += 1;
        *g
    }
}

#[derive(Debug)]
struct P {
    p: usize,
    h: Arc<H>,
    fail_flush: bool,
    fail_shutdown: bool,
}
impl P {
    fn flush(&self) -> OTelSdkResult {
        self.h.push(Pe::PFlush(self.p));
        mc::step("processor.flush");
        if self.fail_flush { Err(OTelSdkError::InternalFailure("flush".into())) } else { Ok(()) }
    }
    fn shut(&self) -> OTelSdkResult {
        self.h.push(Pe::PShutdown(self.p));
        mc::step("processor.shutdown");
        if self.fail_shutdown { Err(OTelSdkError::InternalFailure("shutdown".into())) } else { Ok(()) }
    }
}
fn name_id(n: &str) -> u32 {
    n.parse().unwrap()
}
impl SpanProcessor for P {
    fn on_start(&self, span: &mut Span, _: &Context) {
        let id = span.exported_data().map(|d| name_id(&d.name)).unwrap_or(9999);
        self.h.push(Pe::OnStart(self.p, id));
    }
    fn on_end(&self, span: SpanData) {
        self.h.push(Pe::Item(self.p, name_id(&span.name)));
        mc::step("processor.on_end");
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.flush()
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.shut()
    }
}
impl LogProcessor for P {
    fn emit(&self, r: &mut SdkLogRecord, _: &InstrumentationScope) {
        let id = match r.body() {
            Some(AnyValue::Int(i)) => *i as u32,
            _ => 9999,
        };
        self.h.push(Pe::Item(self.p, id));
        mc::step("processor.emit");
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.flush()
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.shut()
    }
}

#[derive(Debug)]
struct Rd(P, ManualReader);
impl MetricReader for Rd {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.1.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.1.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.0.flush()
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        self.0.shut()
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.1.temporality(k)
    }
}

#[derive(Clone, Copy, Debug)]
enum Po {
    /// start and end an item on the thread's own tracer / logger / counter
    Item(u32),
    /// start only; ended by E
    St(u32),
    E(u32),
    /// get a fresh tracer / logger / meter from the handle, then Item
    Fresh(u32),
    F,
    S,
    /// drop the provider handle of this thread
    D,
}
use Po::*;

/// what differs between the three signals
trait Sig: Send + Sync + 'static {
    type Provider: Clone + Send + Sync + 'static;
    type Source: Send + Sync + 'static;
    type Open: Send;
    fn build(ps: Vec<P>) -> Self::Provider;
    fn source(p: &Self::Provider) -> Self::Source;
    fn flush(p: &Self::Provider) -> OTelSdkResult;
    fn shutdown(p: &Self::Provider) -> OTelSdkResult;
    fn start(s: &Self::Source, id: u32) -> (Self::Open, bool);
    fn end(o: Self::Open);
}
struct Tr;
impl Sig for Tr {
    type Provider = SdkTracerProvider;
    type Source = opentelemetry_sdk::trace::SdkTracer;
    type Open = Span;
    fn build(ps: Vec<P>) -> SdkTracerProvider {
        let mut b = SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOn);
        for p in ps {
            b = b.with_span_processor(p);
        }
        b.build()
    }
    fn source(p: &SdkTracerProvider) -> Self::Source {
        p.tracer("t")
    }
    fn flush(p: &SdkTracerProvider) -> OTelSdkResult {
        p.force_flush()
    }
    fn shutdown(p: &SdkTracerProvider) -> OTelSdkResult {
        p.shutdown()
    }
    fn start(s: &Self::Source, id: u32) -> (Span, bool) {
        let sp = s.start(id.to_string());
        let r = sp.is_recording();
        (sp, r)
    }
    fn end(mut o: Span) {
        o.end()
    }
}
struct Lg;
impl Sig for Lg {
    type Provider = SdkLoggerProvider;
    type Source = Arc<opentelemetry_sdk::logs::SdkLogger>;
    type Open = (Self::Source, SdkLogRecord);
    fn build(ps: Vec<P>) -> SdkLoggerProvider {
        let mut b = SdkLoggerProvider::builder();
        for p in ps {
            b = b.with_log_processor(p);
        }
        b.build()
    }
    fn source(p: &SdkLoggerProvider) -> Self::Source {
        Arc::new(p.logger("t"))
    }
    fn flush(p: &SdkLoggerProvider) -> OTelSdkResult {
        p.force_flush()
    }
    fn shutdown(p: &SdkLoggerProvider) -> OTelSdkResult {
        p.shutdown()
    }
    fn start(s: &Self::Source, id: u32) -> (Self::Open, bool) {
        let mut r = s.create_log_record();
        r.set_body(AnyValue::Int(id as i64));
        ((s.clone(), r), true)
    }
    fn end(o: Self::Open) {
        o.0.emit(o.1)
    }
}
struct Mt;
impl Sig for Mt {
    type Provider = SdkMeterProvider;
    type Source = opentelemetry::metrics::Counter<u64>;
    type Open = Self::Source;
    fn build(ps: Vec<P>) -> SdkMeterProvider {
        let mut b = SdkMeterProvider::builder();
        for p in ps {
            b = b.with_reader(Rd(p, ManualReader::builder().build()));
        }
        b.build()
    }
    fn source(p: &SdkMeterProvider) -> Self::Source {
        p.meter("m").u64_counter("c").build()
    }
    fn flush(p: &SdkMeterProvider) -> OTelSdkResult {
        p.force_flush()
    }
    fn shutdown(p: &SdkMeterProvider) -> OTelSdkResult {
        p.shutdown()
    }
    fn start(s: &Self::Source, _: u32) -> (Self::Open, bool) {
        (s.clone(), true)
    }
    fn end(o: Self::Open) {
        o.add(1, &[])
    }
}

fn run_ops<S: Sig>(h: &Arc<H>, p: S::Provider, src: S::Source, ops: &[Po]) {
    let mut p = Some(p);
    let mut src = Some(src);
    let mut open: Vec<(u32, S::Open)> = Vec::new();
    let start = |s: &S::Source, id: u32| {
        h.push(Pe::Begin(id));
        let (o, rec) = S::start(s, id);
        h.push(Pe::Started(id, rec));
        o
    };
    let end = |id: u32, o: S::Open| {
        h.push(Pe::End(id));
        S::end(o);
        h.push(Pe::Ended(id));
    };
    for op in ops {
        match *op {
            Item(id) => {
                let o = start(src.as_ref().unwrap(), id);
                end(id, o);
            }
            St(id) => {
                let o = start(src.as_ref().unwrap(), id);
                open.push((id, o));
            }
            E(id) => {
                let i = open.iter().position(|x| x.0 == id).unwrap();
                end(id, open.remove(i).1);
            }
            Fresh(id) => {
                h.push(Pe::Begin(id));
                let s = S::source(p.as_ref().unwrap());
                let (o, rec) = S::start(&s, id);
                h.push(Pe::Started(id, rec));
                end(id, o);
            }
            F => {
                let k = h.next();
                h.push(Pe::Flush(k));
                let r = st(S::flush(p.as_ref().unwrap()));
                h.push(Pe::Flushed(k, r));
            }
            S => {
                let k = h.next();
                h.push(Pe::Shut(k));
                let r = st(S::shutdown(p.as_ref().unwrap()));
                h.push(Pe::ShutDone(k, r));
            }
            D => {
                p = None;
                src = None;
            }
        }
    }
    drop(open);
    drop(src);
    drop(p);
}

fn check<Sg: Sig>(ev: &[Pe], np: usize, ff: u32, fs: u32, kind: char) {
    let bad = |m: String| mc::violation(format!("{m}; history {ev:?}"));
    let pos = |f: &dyn Fn(&Pe) -> bool| ev.iter().position(f);
    let count = |f: &dyn Fn(&Pe) -> bool| ev.iter().filter(|e| f(e)).count();
    // exactly one shutdown per processor
    for p in 0..np {
        let n = count(&|e| *e == Pe::PShutdown(p));
        if n != 1 {
            bad(format!("processor {p} was shut down {n} times"));
        }
        for id in ev.iter().filter_map(|e| if let Pe::Item(q, id) = e { (*q == p).then_some(*id) } else { None }) {
            if count(&|e| *e == Pe::Item(p, id)) > 1 {
                bad(format!("item {id} reached processor {p} twice"));
            }
            match pos(&|e| *e == Pe::End(id)) {
                Some(i) if i < pos(&|e| *e == Pe::Item(p, id)).unwrap() => {}
                _ => bad(format!("item {id} reached processor {p} before it was recorded")),
            }
        }
    }
    let shuts: Vec<(usize, usize, &Result<(), String>)> = ev
        .iter()
        .enumerate()
        .filter_map(|(i, e)| if let Pe::ShutDone(k, r) = e { Some((pos(&|e| *e == Pe::Shut(*k)).unwrap(), i, r)) } else { None })
        .collect();
    let already = |r: &Result<(), String>| matches!(r, Err(m) if m.contains("AlreadyShutdown"));
    if !shuts.is_empty() {
        let real: Vec<_> = shuts.iter().filter(|s| !already(s.2)).collect();
        if real.len() != 1 {
            bad(format!("{} shutdown calls performed the shutdown", real.len()));
        }
        if real[0].2.is_ok() != (fs == 0) {
            bad(format!("shutdown returned {:?} with failing processors {fs:b}", real[0].2));
        }
        for p in 0..np {
            let i = pos(&|e| *e == Pe::PShutdown(p)).unwrap();
            if i < real[0].0 || i > real[0].1 {
                bad(format!("processor {p} was not shut down by the shutdown call"));
            }
        }
        for p in 1..np {
            if pos(&|e| *e == Pe::PShutdown(p - 1)) > pos(&|e| *e == Pe::PShutdown(p)) {
                // order of shutdown is not specified
            }
        }
    }
    let done = shuts.iter().filter(|s| !already(s.2)).map(|s| s.1).next();
    let begun = shuts.iter().map(|s| s.0).min();
    for (i, e) in ev.iter().enumerate() {
        match e {
            Pe::Ended(id) if kind != 'm' => {
                if begun.map(|b| i < b).unwrap_or(true) {
                    for p in 0..np {
                        if pos(&|e| *e == Pe::Item(p, *id)).is_none() {
                            bad(format!("item {id} recorded before shutdown never reached processor {p}"));
                        }
                    }
                    for p in 1..np {
                        if pos(&|e| *e == Pe::Item(p - 1, *id)) > pos(&|e| *e == Pe::Item(p, *id)) {
                            bad(format!("item {id} reached processor {p} before processor {}", p - 1));
                        }
                    }
                }
            }
            Pe::Started(id, rec) if kind == 't' => {
                let b = pos(&|e| *e == Pe::Begin(*id)).unwrap();
                if done.map(|d| b > d).unwrap_or(false) {
                    if *rec {
                        bad(format!("span {id} started after shutdown is recording"));
                    }
                    if count(&|e| matches!(e, Pe::Item(_, x) | Pe::OnStart(_, x) if x == id)) > 0 {
                        bad(format!("span {id} started after shutdown reached a processor"));
                    }
                }
                if begun.map(|x| i < x).unwrap_or(true) {
                    if !*rec {
                        bad(format!("span {id} started before shutdown is not recording"));
                    }
                    for p in 0..np {
                        if count(&|e| *e == Pe::OnStart(p, *id)) != 1 {
                            bad(format!("span {id}: on_start of processor {p} did not run exactly once"));
                        }
                    }
                }
            }
            Pe::End(id) if kind == 't' => {
                if done.map(|d| i > d).unwrap_or(false) && count(&|e| matches!(e, Pe::Item(_, x) if x == id)) > 0 {
                    bad(format!("span {id} ended after shutdown reached a processor"));
                }
            }
            Pe::Begin(id) if *id >= 100 => {
                // obtained from the provider after shutdown: inert
                if done.map(|d| i > d).unwrap_or(false) && count(&|e| matches!(e, Pe::Item(_, x) if x == id)) > 0 {
                    bad(format!("item {id} of a source obtained after shutdown reached a processor"));
                }
            }
            Pe::Flushed(k, r) => {
                let b = pos(&|e| *e == Pe::Flush(*k)).unwrap();
                if begun.map(|x| i < x).unwrap_or(true) {
                    if r.is_ok() != (ff == 0) {
                        bad(format!("flush returned {r:?} with failing processors {ff:b}"));
                    }
                    for p in 0..np {
                        if !ev[b..i].contains(&Pe::PFlush(p)) {
                            bad(format!("flush did not reach processor {p}"));
                        }
                    }
                }
                if kind == 'm' && done.map(|d| b > d).unwrap_or(false) && r.is_ok() {
                    bad("flush after shutdown reported success".into());
                }
            }
            _ => {}
        }
    }
}

fn lifecycle<Sg: Sig>(p: &'static str, name: &'static str, q: u32, t: u32, np: usize, ff: u32, fs: u32, kind: char, threads: Vec<Vec<Po>>) -> Scenario {
    scenario(p, name, q + 2, t + 3, move || {
        let h = Arc::new(H::default());
        let ps = (0..np)
            .map(|p| P { p, h: h.clone(), fail_flush: ff >> p & 1 == 1, fail_shutdown: fs >> p & 1 == 1 })
            .collect();
        let prov = Sg::build(ps);
        let mut hs = Vec::new();
        for ops in &threads[1..] {
            let (h, pr, ops) = (h.clone(), prov.clone(), ops.clone());
            let src = Sg::source(&pr);
            hs.push(std::thread::spawn(move || run_ops::<Sg>(&h, pr, src, &ops)));
        }
        let src = Sg::source(&prov);
        run_ops::<Sg>(&h, prov, src, &threads[0]);
        for x in hs {
            x.join().unwrap();
        }
        h.push(Pe::Dropped);
        let ev = h.ev.lock().unwrap().clone();
        check::<Sg>(&ev, np, ff, fs, kind);
        ev.iter()
            .filter_map(|e| match e {
                Pe::Item(p, i) => Some(format!("i{p}.{i}")),
                Pe::PShutdown(p) => Some(format!("S{p}")),
                Pe::PFlush(p) => Some(format!("F{p}")),
                Pe::ShutDone(_, r) => Some(format!("s{}", if r.is_ok() { '+' } else { '-' })),
                Pe::Started(i, r) => Some(format!("{}{i}", if *r { 'b' } else { 'n' })),
                _ => None,
            })
            .collect::<Vec<_>>()
            .join(" ")
    })
}

fn lifecycles<Sg: Sig>(p: &'static str, pre: &str, kind: char) -> Vec<Scenario> {
    let n = |s: &str| -> &'static str { Box::leak(format!("{pre}.{s}").into_boxed_str()) };
    vec![
        lifecycle::<Sg>(p, n("two_shutdowns"), 3, 4, 2, 0, 0, kind, vec![vec![Item(1), S, Fresh(100)], vec![Item(2), S, Item(3)]]),
        lifecycle::<Sg>(p, n("three_shutdowns"), 2, 3, 1, 0, 0, kind, vec![vec![S, Item(1)], vec![S], vec![S, Fresh(100)]]),
        lifecycle::<Sg>(p, n("drop_only"), 3, 4, 2, 0, 0, kind, vec![vec![Item(1), D], vec![Item(2), D]]),
        lifecycle::<Sg>(p, n("drop_fail"), 2, 3, 2, 1, 1, kind, vec![vec![Item(1), F, D], vec![Item(2), D]]),
        lifecycle::<Sg>(p, n("drop_vs_shutdown"), 3, 4, 2, 0, 0, kind, vec![vec![Item(1), D], vec![Item(2), S, Fresh(100)]]),
        lifecycle::<Sg>(p, n("open_items"), 3, 4, 1, 0, 0, kind, vec![vec![St(1), S, E(1), Fresh(100)], vec![St(2), E(2), Item(3)]]),
        lifecycle::<Sg>(p, n("one_processor"), 3, 4, 1, 0, 0, kind, vec![vec![Item(1), F, S, S, F], vec![Item(2), F]]),
        lifecycle::<Sg>(p, n("fail_first"), 2, 3, 3, 0b001, 0b001, kind, vec![vec![Item(1), F, S, S], vec![Item(2), F]]),
        lifecycle::<Sg>(p, n("fail_last"), 2, 3, 3, 0b100, 0b100, kind, vec![vec![Item(1), F, S], vec![Item(2), S]]),
        lifecycle::<Sg>(p, n("fail_middle"), 2, 3, 3, 0b010, 0b010, kind, vec![vec![Item(1), F, S, S]]),
        lifecycle::<Sg>(p, n("fail_all"), 2, 3, 2, 0b11, 0b11, kind, vec![vec![Item(1), F, S, Fresh(100), F], vec![D]]),
        lifecycle::<Sg>(p, n("no_processor"), 2, 3, 0, 0, 0, kind, vec![vec![Item(1), F, S, Fresh(100)], vec![S]]),
        lifecycle::<Sg>(p, n("clone_chain"), 2, 3, 2, 0, 0, kind, vec![vec![D], vec![Item(1), D], vec![Item(2), D]]),
    ]
}

/// simple processors
struct SimpleSys<F: Fn(u32) + Send + Sync, G: Fn() -> OTelSdkResult + Send + Sync, K: Fn() -> OTelSdkResult + Send + Sync>(F, G, K);
impl<F: Fn(u32) + Send + Sync, G: Fn() -> OTelSdkResult + Send + Sync, K: Fn() -> OTelSdkResult + Send + Sync> Sys for SimpleSys<F, G, K> {
    fn rec(&self, id: u32) {
        (self.0)(id)
    }
    fn flush(&self) -> Result<(), String> {
        st((self.1)())
    }
    fn shutdown(&self) -> Result<(), String> {
        st((self.2)())
    }
}

fn mk_span(rec: &Arc<Rec>) -> Arc<dyn Sys> {
    let p = SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOn).with_span_processor(SimpleSpanProcessor::new(SpanExp(rec.clone()))).build();
    let t = p.tracer("t");
    let (p1, p2) = (p.clone(), p);
    Arc::new(SimpleSys(move |id| t.start(id.to_string()).end(), move || p1.force_flush(), move || p2.shutdown()))
}
fn mk_span_direct(rec: &Arc<Rec>) -> Arc<dyn Sys> {
    let p = Arc::new(SimpleSpanProcessor::new(SpanExp(rec.clone())));
    let (p1, p2) = (p.clone(), p.clone());
    // ids >= 50 are not sampled
    Arc::new(SimpleSys(move |id| p.on_end(crate::spans::span(id, id < 50)), move || p1.force_flush(), move || p2.shutdown()))
}
fn mk_log_direct(rec: &Arc<Rec>) -> Arc<dyn Sys> {
    let p = Arc::new(SimpleLogProcessor::new(LogExp(rec.clone())));
    let (p1, p2) = (p.clone(), p.clone());
    Arc::new(SimpleSys(
        move |id| p.emit(&mut crate::logs::record(id), &InstrumentationScope::default()),
        move || p1.force_flush(),
        move || p2.shutdown(),
    ))
}
fn mk_log(rec: &Arc<Rec>) -> Arc<dyn Sys> {
    let p = SdkLoggerProvider::builder().with_log_processor(SimpleLogProcessor::new(LogExp(rec.clone()))).build();
    let l = p.logger("t");
    let (p1, p2) = (p.clone(), p);
    Arc::new(SimpleSys(
        move |id| {
            let mut r = l.create_log_record();
            r.set_body(AnyValue::Int(id as i64));
            l.emit(r)
        },
        move || p1.force_flush(),
        move || p2.shutdown(),
    ))
}

fn simple(name: &'static str, q: u32, t: u32, mk: fn(&Arc<Rec>) -> Arc<dyn Sys>, flag: bool, mode: ExpMode, threads: Vec<Vec<Op>>, end: Vec<Op>) -> Scenario {
    scenario("C05", name, q + 2, t + 3, move || {
        let rec = Rec::new(mode);
        drive(mk(&rec), &rec, &threads, &end);
        let ev = rec.events();
        let bad = |m: String| mc::violation(format!("{m}; history {ev:?}"));
        let at = |e: &Ev| ev.iter().position(|x| x == e);
        let shut_done = ev.iter().position(|e| matches!(e, Ev::ShutdownDone(..)));
        let shut = ev.iter().position(|e| matches!(e, Ev::Shutdown(_)));
        for e in &ev {
            if let Ev::RecDone(id) = e {
                let (s, d) = (at(&Ev::Rec(*id)).unwrap(), at(e).unwrap());
                let n = ev.iter().filter(|e| matches!(e, Ev::Exp(v, _) if v.contains(id))).count();
                let inside = ev[s..d].iter().any(|e| matches!(e, Ev::Exp(v, _) if v == &vec![*id]));
                if n > 1 {
                    bad(format!("item {id} exported {n} times"));
                }
                if *id >= 50 {
                    if n > 0 {
                        bad(format!("span {id} is not sampled but was exported"));
                    }
                } else if shut.map(|x| d < x).unwrap_or(true) && !inside {
                    bad(format!("item {id} was not exported by the time its recording call returned"));
                }
                if n == 1 && !inside {
                    bad(format!("item {id} was exported outside its recording call"));
                }
                if flag && shut_done.map(|x| s > x).unwrap_or(false) && n > 0 {
                    bad(format!("item {id} recorded after shutdown was exported"));
                }
            }
        }
        brief(&ev)
    })
}

pub fn scenarios() -> Vec<Scenario> {
    let mut v = lifecycles::<Tr>("C06", "tracer", 't');
    v.extend(lifecycles::<Lg>("C07", "logger", 'l'));
    v.extend(lifecycles::<Mt>("C08", "meter", 'm'));
    use ExpMode as M;
    use Op::*;
    let all: [(&str, fn(&Arc<Rec>) -> Arc<dyn Sys>, bool); 4] =
        [("span", mk_span, true), ("span_direct", mk_span_direct, false), ("log", mk_log, true), ("log_direct", mk_log_direct, true)];
    for (k, mk, flag) in all {
        let n = |s: &str| -> &'static str { Box::leak(format!("simple.{k}.{s}").into_boxed_str()) };
        v.push(simple(n("three"), 2, 4, mk, flag, M::Ok, vec![vec![R(1), R(2)], vec![R(3)], vec![R(4)]], vec![F, S, R(5)]));
        v.push(simple(n("shutdown"), 3, 5, mk, flag, M::Ok, vec![vec![R(1), S, R(2)], vec![R(3), R(4)]], vec![R(5)]));
        v.push(simple(n("error"), 3, 5, mk, flag, M::Fail(0), vec![vec![R(1), R(2)], vec![R(3), S]], vec![R(4)]));
        v.push(simple(n("slow"), 3, 4, mk, flag, M::Slow(10), vec![vec![R(1), R(2)], vec![R(3), S, R(4)]], vec![R(5)]));
        if k == "span_direct" {
            v.push(simple(n("unsampled"), 3, 5, mk, flag, M::Ok, vec![vec![R(50), R(1), R(51)], vec![R(52), R(2)]], vec![S]));
        }
    }
    v
}
