//! C18: current context under attach/detach in any order. C19: futures, streams, sinks, suppression.
use bmc::*;
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, ContextGuard};
use std::cell::RefCell;
use std::sync::mpsc::{channel, Receiver, Sender};

#[derive(Debug, Clone, Copy, PartialEq)]
struct A(u64);
#[derive(Debug, Clone, Copy, PartialEq)]
struct B(u64);

/// The model of a context.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Cx {
    a: Option<u64>,
    b: Option<u64>,
    span: Option<u64>,
    sup: bool,
}
pub fn sc(id: u64) -> SpanContext {
    SpanContext::new(TraceId::from(5u128), SpanId::from(id), TraceFlags::SAMPLED, true, TraceState::NONE)
}
pub fn read(cx: &Context) -> Cx {
    Cx {
        a: cx.get::<A>().map(|x| x.0),
        b: cx.get::<B>().map(|x| x.0),
        span: cx.has_active_span().then(|| u64::from_be_bytes(cx.span().span_context().span_id().to_bytes())),
        sup: cx.is_telemetry_suppressed(),
    }
}
pub fn current() -> Cx {
    let c = read(&Context::current());
    let m = Context::map_current(read);
    assert_eq!(c, m, "Context::current and map_current disagree");
    assert_eq!(c.sup, Context::is_current_telemetry_suppressed(), "is_current_telemetry_suppressed disagrees");
    assert_eq!(
        c.span.unwrap_or(0),
        opentelemetry::trace::get_active_span(|s| u64::from_be_bytes(s.span_context().span_id().to_bytes())),
        "get_active_span disagrees"
    );
    c
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Op {
    ValA,
    ValB,
    Span,
    Sup,
    Scope,
    Fresh,
    Again,
    Drop(usize),
    DropLast,
}
use Op::*;

/// Real thread state and its model, driven by the same operations.
#[derive(Default)]
struct Th {
    stack: Vec<(Cx, Option<ContextGuard>)>,
    made: Vec<(Context, Cx)>,
}
impl Th {
    fn want(&self) -> Cx {
        self.stack.iter().rev().find(|x| x.1.is_some()).map(|x| x.0).unwrap_or_default()
    }
    fn apply(&mut self, op: Op, n: u64) {
        let cur = self.want();
        let real = Context::current();
        let (cx, m) = match op {
            ValA => (if n % 2 == 0 { real.with_value(A(n)) } else { Context::current_with_value(A(n)) }, Cx { a: Some(n), ..cur }),
            ValB => (real.with_value(B(n)), Cx { b: Some(n), ..cur }),
            Span => (real.with_remote_span_context(sc(n)), Cx { span: Some(n), ..cur }),
            Sup => (real.with_telemetry_suppressed(), Cx { sup: true, ..cur }),
            Fresh => (Context::new().with_value(A(n)), Cx { a: Some(n), ..Default::default() }),
            Scope => {
                self.stack.push((Cx { sup: true, ..cur }, Some(Context::enter_telemetry_suppressed_scope())));
                return;
            }
            // attach an earlier context once more
            Again => match self.made.first() {
                Some((c, m)) => (c.clone(), *m),
                None => (Context::new(), Cx::default()),
            },
            Drop(k) => {
                let mut alive: Vec<usize> = (0..self.stack.len()).filter(|&i| self.stack[i].1.is_some()).collect();
                if k < alive.len() {
                    let i = alive.remove(k);
                    self.stack[i].1 = None;
                }
                return;
            }
            DropLast => {
                if let Some(x) = self.stack.iter_mut().rev().find(|x| x.1.is_some()) {
                    x.1 = None;
                }
                return;
            }
        };
        self.made.push((cx.clone(), m));
        self.stack.push((m, Some(cx.attach())));
    }
    fn check(&self) -> Result<(), String> {
        let (got, want) = (current(), self.want());
        if got != want {
            return Err(format!("current context is {got:?}, expected {want:?}"));
        }
        for (c, m) in &self.made {
            if read(c) != *m {
                return Err(format!("an existing context changed: {:?}, expected {m:?}", read(c)));
            }
        }
        Ok(())
    }
    fn key(&self) -> Vec<(Cx, bool)> {
        self.stack.iter().map(|x| (x.0, x.1.is_some())).collect()
    }
}

fn attach_detach(r: &mut Run) {
    let al = [ValA, ValB, Span, Scope, Fresh, Again, Drop(0), Drop(1), Drop(2), DropLast];
    let d = r.pick(6, 8);
    r.sequences(&al, d, |s| format!("{s:?}"), |s, o| run_ops(s, o));
}
/// Fewer kinds of context, longer sequences: every shape of out-of-order detaching.
fn attach_detach_deep(r: &mut Run) {
    let al = [ValA, Drop(0), Drop(1), Drop(2), Drop(3)];
    let d = r.pick(9, 11);
    r.sequences(&al, d, |s| format!("{s:?}"), |s, o| run_ops(s, o));
}
fn run_ops(s: &[Op], o: &mut Obs) -> R {
    same!(current(), Cx::default(), "before the sequence");
    let mut t = Th::default();
    for (i, op) in s.iter().enumerate() {
        t.apply(*op, i as u64 + 1);
        t.check().map_err(|e| format!("after step {i} ({op:?}): {e}"))?;
        o.step(&t.key());
    }
    o.outcome(&t.want());
    // whatever guards are left are dropped in attach order
    for i in 0..t.stack.len() {
        t.stack[i].1 = None;
        t.check().map_err(|e| format!("dropping the remaining guards: {e}"))?;
    }
    Ok(())
}

enum Msg {
    Do(Op, u64),
    Reset,
}
thread_local!(static WORKERS: RefCell<Vec<(Sender<Msg>, Receiver<Result<u64, String>>)>> = const { RefCell::new(vec![]) });
fn worker() -> (Sender<Msg>, Receiver<Result<u64, String>>) {
    let (tx, rx) = channel();
    let (rtx, rrx) = channel();
    std::thread::spawn(move || {
        let mut t = Th::default();
        while let Ok(m) = rx.recv() {
            let r = match m {
                Msg::Do(op, n) => {
                    t.apply(op, n);
                    t.check().map(|_| hash(&t.key()))
                }
                Msg::Reset => {
                    t.stack.clear();
                    t.made.clear();
                    let c = current();
                    if c == Cx::default() { Ok(0) } else { Err(format!("{c:?} left behind")) }
                }
            };
            if rtx.send(r).is_err() {
                return;
            }
        }
    });
    (tx, rrx)
}
/// Two threads, operations interleaved in every order; each must only see its own.
fn two_threads(r: &mut Run) {
    let al: Vec<(usize, Op)> = [0, 1].into_iter().flat_map(|t| [ValA, Span, Scope, Drop(0), DropLast].map(|o| (t, o))).collect();
    let d = r.pick(5, 6);
    r.sequences(&al, d, |s| format!("{s:?}"), |s, o| {
        WORKERS.with(|w| {
            let mut w = w.borrow_mut();
            while w.len() < 2 {
                w.push(worker());
            }
            let mut keys = [0u64; 2];
            for (i, (t, op)) in s.iter().enumerate() {
                w[*t].0.send(Msg::Do(*op, i as u64 + 1)).unwrap();
                let x = w[*t].1.recv().map_err(|_| "worker thread died".to_string())?;
                keys[*t] = x.map_err(|e| format!("after step {i} on thread {t}: {e}"))?;
                o.step(&keys);
            }
            for (tx, rx) in w.iter() {
                tx.send(Msg::Reset).unwrap();
                rx.recv().map_err(|_| "worker thread died".to_string())??;
            }
            o.outcome(&keys);
            Ok(())
        })
    });
}
/// Very deep nesting, and its removal in several orders.
fn depth(r: &mut Run) {
    for n in [1usize, 2, 7, 8, 9, 63, 64, 255, 256, 257, 4095, 32767, 32768, 65533] {
        for order in 0..4 {
            if n > 9 && order > 1 && !r.thorough && n > 5000 {
                continue;
            }
            r.case(|| format!("{n} nested contexts, removed in order {order}"), |o| {
                let mut g: Vec<Option<ContextGuard>> = (0..n).map(|i| Some(Context::current_with_value(A(i as u64)).attach())).collect();
                same!(current().a, Some(n as u64 - 1), "after attaching");
                let idx: Vec<usize> = match order {
                    0 => (0..n).rev().collect(),
                    1 => (0..n).collect(),
                    2 => (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect(),
                    _ => (0..n / 2).chain((n / 2..n).rev()).collect(),
                };
                let mut alive: std::collections::BTreeSet<usize> = (0..n).collect();
                for i in idx {
                    g[i] = None;
                    alive.remove(&i);
                    o.steps += 1;
                    let want = alive.iter().next_back().map(|x| *x as u64);
                    ensure!(current().a == want, "after dropping guard {i}: current value {:?}, expected {want:?}", current().a);
                }
                o.step(&n);
                // the stack is usable again
                let _g = Context::new().with_value(A(7)).attach();
                same!(current().a, Some(7), "after emptying the stack");
                Ok(())
            });
        }
    }
}
/// Value operations on detached contexts: every sequence of derivations from any earlier context.
fn derive(r: &mut Run) {
    #[derive(Clone, Copy, Debug)]
    enum D { A, B, Span, Sup }
    let al: Vec<(usize, D)> = (0..3).flat_map(|i| [D::A, D::B, D::Span, D::Sup].map(|d| (i, d))).collect();
    let d = r.pick(4, 5);
    r.sequences(&al, d, |s| format!("{s:?}"), |s, o| {
        let mut v: Vec<(Context, Cx)> = vec![(Context::new(), Cx::default())];
        for (n, (back, d)) in s.iter().enumerate() {
            let n = n as u64 + 1;
            let (c, m) = v[v.len().saturating_sub(1 + back)].clone();
            v.push(match d {
                D::A => (c.with_value(A(n)), Cx { a: Some(n), ..m }),
                D::B => (c.with_value(B(n)), Cx { b: Some(n), ..m }),
                D::Span => (c.with_remote_span_context(sc(n)), Cx { span: Some(n), ..m }),
                D::Sup => (c.with_telemetry_suppressed(), Cx { sup: true, ..m }),
            });
            for (c, m) in &v {
                same!(read(c), *m, "a derived context");
                ensure!(c.get::<u8>().is_none(), "a value that was never set was found");
            }
            same!(current(), Cx::default(), "deriving contexts changed the current one");
            o.step(&v.iter().map(|x| x.1).collect::<Vec<_>>());
        }
        o.outcome(&v.last().unwrap().1);
        Ok(())
    });
}

// ------------------------------------------------------------------ C19

use futures_core::Stream;
use futures_sink::Sink;
use opentelemetry::context::{FutureExt, WithContext};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Wake, Waker};

struct Nop;
impl Wake for Nop {
    fn wake(self: Arc<Self>) {}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Act {
    Pending,
    Ready,
    Panic,
    /// attaches a context of its own and detaches it again
    Inner,
    /// polls another future with its own context
    Nested,
    Suppress,
}
type Log = Arc<Mutex<Vec<String>>>;
/// Behaves as told; notes which context it sees.
#[derive(Clone)]
struct Probe {
    acts: Arc<Mutex<Vec<Act>>>,
    expect: Cx,
    log: Log,
    depth: usize,
}
impl Probe {
    fn see(&self, what: &str) {
        let c = current();
        if c != self.expect {
            self.log.lock().unwrap().push(format!("{what} ran under {c:?}, expected {:?}", self.expect));
        }
    }
    fn act(&self, what: &str) -> bool {
        self.see(what);
        let a = { let mut v = self.acts.lock().unwrap(); if v.is_empty() { Act::Pending } else { v.remove(0) } };
        match a {
            Act::Pending => false,
            Act::Ready => true,
            Act::Panic => panic!("probe"),
            Act::Inner => {
                {
                    let _g = Context::current_with_value(B(99)).attach();
                    if current() != (Cx { b: Some(99), ..self.expect }) {
                        self.log.lock().unwrap().push("a context attached during the poll is not current".into());
                    }
                }
                self.see("after an inner attach,");
                false
            }
            Act::Suppress => {
                {
                    let _g = Context::enter_telemetry_suppressed_scope();
                    if current() != (Cx { sup: true, ..self.expect }) {
                        self.log.lock().unwrap().push("suppression does not hold in its scope".into());
                    }
                    let g2 = Context::current_with_value(B(98)).attach();
                    if !current().sup {
                        self.log.lock().unwrap().push("suppression does not hold in a context derived within its scope".into());
                    }
                    drop(g2);
                }
                self.see("after a suppressed scope,");
                false
            }
            Act::Nested => {
                if self.depth < 2 {
                    let want = Cx { a: Some(77), ..Default::default() };
                    let p = Probe { acts: Arc::new(Mutex::new(vec![Act::Inner, Act::Ready])), expect: want, log: self.log.clone(), depth: self.depth + 1 };
                    let mut f = Box::pin(p.with_context(Context::new().with_value(A(77))));
                    let w = Waker::from(Arc::new(Nop));
                    let mut cx = std::task::Context::from_waker(&w);
                    let _ = Future::poll(f.as_mut(), &mut cx);
                    self.see("after a nested poll,");
                    let _ = Future::poll(f.as_mut(), &mut cx);
                    self.see("after a nested completion,");
                }
                false
            }
        }
    }
}
impl Future for Probe {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<()> {
        if self.act("poll") { Poll::Ready(()) } else { Poll::Pending }
    }
}
impl Stream for Probe {
    type Item = u8;
    fn poll_next(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<Option<u8>> {
        if self.act("poll_next") { Poll::Ready(Some(1)) } else { Poll::Pending }
    }
}
impl Sink<u8> for Probe {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<Result<(), ()>> {
        if self.act("poll_ready") { Poll::Ready(Ok(())) } else { Poll::Pending }
    }
    fn start_send(self: Pin<&mut Self>, _: u8) -> Result<(), ()> {
        if self.act("start_send") { Ok(()) } else { Err(()) }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<Result<(), ()>> {
        if self.act("poll_flush") { Poll::Ready(Ok(())) } else { Poll::Pending }
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<Result<(), ()>> {
        if self.act("poll_close") { Poll::Ready(Ok(())) } else { Poll::Pending }
    }
}
/// Calls entry point `how` of the wrapped object with the given behaviour; says whether it was ready.
fn touch(f: &mut Pin<Box<WithContext<Probe>>>, acts: &Arc<Mutex<Vec<Act>>>, how: usize, act: Act) -> Result<bool, String> {
    *acts.lock().unwrap() = vec![act];
    let w = Waker::from(Arc::new(Nop));
    let mut cx = std::task::Context::from_waker(&w);
    let before = current();
    let r = catch_unwind(AssertUnwindSafe(|| match how {
        0 => Future::poll(f.as_mut(), &mut cx).is_ready(),
        1 => Stream::poll_next(f.as_mut(), &mut cx).is_ready(),
        2 => Sink::poll_ready(f.as_mut(), &mut cx).is_ready(),
        3 => Sink::start_send(f.as_mut(), 1).is_ok(),
        4 => Sink::poll_flush(f.as_mut(), &mut cx).is_ready(),
        _ => Sink::poll_close(f.as_mut(), &mut cx).is_ready(),
    }));
    let after = current();
    if before != after {
        return Err(format!("the call left {after:?} current instead of {before:?}"));
    }
    match (r, act) {
        (Err(_), Act::Panic) => Ok(false),
        (Err(_), _) => Err("the call panicked".into()),
        (Ok(x), _) if x == (act == Act::Ready) => Ok(x),
        (Ok(x), _) => Err(format!("the wrapper changed the result of the call to {x}")),
    }
}

#[derive(Debug, Clone, Copy)]
enum Fop {
    New(u8),
    Touch(usize, usize, Act),
    Drop(usize),
    Env(Op),
}
/// Up to three wrapped objects on one thread, polled in any order and surroundings.
fn futures_(r: &mut Run) {
    let acts = [Act::Pending, Act::Ready, Act::Panic, Act::Inner, Act::Nested, Act::Suppress];
    let mut al = vec![Fop::New(0), Fop::New(1), Fop::New(2), Fop::Drop(0), Fop::Env(ValA), Fop::Env(Scope), Fop::Env(DropLast), Fop::Env(Drop(0))];
    for a in acts {
        al.push(Fop::Touch(0, 0, a));
        al.push(Fop::Touch(1, 0, a));
    }
    for how in 1..6 {
        al.push(Fop::Touch(0, how, Act::Inner));
        al.push(Fop::Touch(0, how, Act::Ready));
        al.push(Fop::Touch(0, how, Act::Panic));
    }
    let d = r.pick(4, 5);
    // sequences that start by creating an object
    for first in [Fop::New(0), Fop::New(1), Fop::New(2)] {
        r.sequences(&al, d, |s| format!("{first:?} {s:?}"), |s, o| {
            let log: Log = Default::default();
            let mut t = Th::default();
            let mut fs: Vec<Option<(Pin<Box<WithContext<Probe>>>, Arc<Mutex<Vec<Act>>>, Cx)>> = vec![];
            let mut n = 0;
            for op in std::iter::once(&first).chain(s) {
                n += 1;
                match *op {
                    Fop::New(k) => {
                        let acts: Arc<Mutex<Vec<Act>>> = Default::default();
                        let cur = t.want();
                        let want = match k { 0 => Cx { a: Some(100 + n), ..Default::default() }, 1 => cur, _ => Cx { sup: true, ..cur } };
                        let p = Probe { acts: acts.clone(), expect: want, log: log.clone(), depth: 0 };
                        let f = match k {
                            0 => p.with_context(Context::new().with_value(A(100 + n))),
                            1 => p.with_current_context(),
                            _ => p.with_context(Context::current().with_telemetry_suppressed()),
                        };
                        fs.push(Some((Box::pin(f), acts, want)));
                    }
                    Fop::Touch(i, how, act) => {
                        if let Some(Some(f)) = fs.get_mut(i) {
                            touch(&mut f.0, &f.1, how, act)?;
                        }
                    }
                    Fop::Drop(i) => {
                        if let Some(f) = fs.get_mut(i) {
                            *f = None;
                        }
                    }
                    Fop::Env(op) => t.apply(op, n),
                }
                t.check().map_err(|e| format!("after {op:?}: {e}"))?;
                if let Some(e) = log.lock().unwrap().first() {
                    return Err(e.clone().into());
                }
                o.step(&(t.key(), fs.iter().map(|f| f.as_ref().map(|f| f.2)).collect::<Vec<_>>()));
            }
            o.outcome(&t.want());
            Ok(())
        });
    }
}
/// A wrapped future that migrates between threads with contexts of their own.
fn migrate(r: &mut Run) {
    let al: Vec<(usize, u8)> = vec![(0, 0), (1, 0), (0, 1), (1, 1), (0, 2), (1, 2), (0, 3), (1, 3)];
    let d = r.pick(5, 6);
    r.sequences(&al, d, |s| format!("{s:?} (thread, 0 poll 1 panic 2 attach+poll 3 detach)"), |s, o| {
        let log: Log = Default::default();
        let acts: Arc<Mutex<Vec<Act>>> = Default::default();
        let want = Cx { a: Some(50), span: Some(3), ..Default::default() };
        let p = Probe { acts: acts.clone(), expect: want, log: log.clone(), depth: 0 };
        let f = Box::pin(p.with_context(Context::new().with_value(A(50)).with_remote_span_context(sc(3))));
        let f = Arc::new(Mutex::new(f));
        MIG.with(|m| -> R {
            let mut m = m.borrow_mut();
            while m.len() < 2 {
                m.push(mig_worker());
            }
            for (t, k) in s {
                m[*t].0.send(Some((*k, f.clone(), acts.clone()))).unwrap();
                m[*t].1.recv().map_err(|_| "worker died".to_string())??;
                if let Some(e) = log.lock().unwrap().first() {
                    return Err(e.clone().into());
                }
                o.step(&(t, k));
            }
            for (tx, rx) in m.iter() {
                tx.send(None).unwrap();
                rx.recv().map_err(|_| "worker died".to_string())??;
            }
            o.outcome(&s.len());
            Ok(())
        })
    });
}
type Mig = (Sender<Option<(u8, Arc<Mutex<Pin<Box<WithContext<Probe>>>>>, Arc<Mutex<Vec<Act>>>)>>, Receiver<Result<(), String>>);
thread_local!(static MIG: RefCell<Vec<Mig>> = const { RefCell::new(vec![]) });
fn mig_worker() -> Mig {
    let (tx, rx) = channel::<Option<(u8, Arc<Mutex<Pin<Box<WithContext<Probe>>>>>, Arc<Mutex<Vec<Act>>>)>>();
    let (rtx, rrx) = channel();
    std::thread::spawn(move || {
        let mut t = Th::default();
        let mut n = 0;
        while let Ok(m) = rx.recv() {
            n += 1;
            let r = match m {
                None => {
                    t.stack.clear();
                    t.made.clear();
                    t.check()
                }
                Some((k, f, acts)) => {
                    match k {
                        2 => t.apply(ValB, n),
                        3 => t.apply(DropLast, n),
                        _ => {}
                    }
                    let act = match k { 1 => Act::Panic, 3 => Act::Nested, _ => Act::Inner };
                    let mut g = f.lock().unwrap_or_else(|e| e.into_inner());
                    touch(&mut g, &acts, 0, act).and_then(|_| t.check())
                }
            };
            if rtx.send(r).is_err() {
                return;
            }
        }
    });
    (tx, rrx)
}
use opentelemetry::logs::{Logger, LoggerProvider};
use opentelemetry::trace::{Span as _, Tracer, TracerProvider};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
#[derive(Debug, Clone, Default)]
struct Count(Arc<AtomicU64>);
impl opentelemetry_sdk::trace::SpanProcessor for Count {
    fn on_start(&self, _: &mut opentelemetry_sdk::trace::Span, _: &Context) {}
    fn on_end(&self, _: opentelemetry_sdk::trace::SpanData) {
        self.0.fetch_add(10, Relaxed);
    }
    fn force_flush(&self) -> opentelemetry_sdk::error::OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> opentelemetry_sdk::error::OTelSdkResult {
        Ok(())
    }
}
impl opentelemetry_sdk::logs::LogProcessor for Count {
    fn emit(&self, _: &mut opentelemetry_sdk::logs::SdkLogRecord, _: &opentelemetry::InstrumentationScope) {
        self.0.fetch_add(1, Relaxed);
    }
    fn force_flush(&self) -> opentelemetry_sdk::error::OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> opentelemetry_sdk::error::OTelSdkResult {
        Ok(())
    }
}
thread_local!(static SDK: (opentelemetry_sdk::trace::SdkTracer, opentelemetry_sdk::logs::SdkLogger, Arc<AtomicU64>) = {
    let c = Count::default();
    let t = opentelemetry_sdk::trace::SdkTracerProvider::builder().with_span_processor(c.clone()).build();
    let l = opentelemetry_sdk::logs::SdkLoggerProvider::builder().with_log_processor(c.clone()).build();
    let r = (t.tracer("t"), l.logger("l"), c.0);
    std::mem::forget((t, l));
    r
});
/// Suppression reaches the SDK: nothing that is recorded inside a suppressed scope is exported.
fn suppression(r: &mut Run) {
    let al = [Scope, ValA, Fresh, DropLast, Drop(0), Drop(1)];
    let d = r.pick(6, 8);
    r.sequences(&al, d, |s| format!("{s:?}"), |s, o| {
        let mut t = Th::default();
        for (i, op) in s.iter().enumerate() {
            t.apply(*op, i as u64 + 1);
            same!(Context::is_current_telemetry_suppressed(), t.want().sup, "after step {i} ({op:?})");
            let exported = SDK.with(|s| {
                let (tracer, logger, n) = &*s;
                let before = n.load(Relaxed);
                tracer.start("s").end();
                logger.emit(logger.create_log_record());
                n.load(Relaxed) - before
            });
            same!(exported, if t.want().sup { 0 } else { 11 }, "spans (10) and logs (1) recorded after step {i} ({op:?})");
            o.step(&t.key());
        }
        o.outcome(&t.want().sup);
        Ok(())
    });
}

pub fn families() -> Vec<Family> {
    vec![
        family("C18", "ctx.attach_detach", attach_detach),
        family("C18", "ctx.attach_detach_deep", attach_detach_deep),
        family("C18", "ctx.two_threads", two_threads),
        family("C18", "ctx.depth", depth),
        family("C18", "ctx.derive", derive),
        family("C19", "ctx.futures", futures_),
        family("C19", "ctx.migrate", migrate),
        family("C19", "ctx.suppression", suppression),
    ]
}
