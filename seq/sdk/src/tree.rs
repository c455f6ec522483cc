//! C28: traces, parents and ids for every history of starting, attaching, detaching and ending spans.
use crate::span::Sink;
use bmc::*;
use opentelemetry::trace::{
    mark_span_as_active, Span as _, SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer as _, TracerProvider as _,
};
use opentelemetry::{Context, ContextGuard};
use opentelemetry_sdk::trace::{Sampler, SdkTracer, SdkTracerProvider, Span};
use std::collections::HashSet;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Op {
    /// start under the current context
    Start,
    StartOther,
    /// start as root although something may be current
    Root,
    /// start under an explicit context holding the most recent span
    UnderLast,
    /// start under a remote parent
    Remote(bool),
    /// start with ids chosen by the caller
    Ids,
    /// make the most recent loose span current
    Attach,
    /// make a remote context current
    AttachRemote,
    /// make a span with an invalid context current: 0 both ids zero, 1 no span id, 2 no trace id
    AttachInvalid(u8),
    Suppress,
    Detach,
    EndCurrent,
    DropLast,
    InSpan,
}
use Op::*;
const AL: [Op; 13] = [Start, StartOther, Root, UnderLast, Remote(true), Remote(false), Attach, AttachRemote, AttachInvalid(0), Suppress, Detach, EndCurrent, DropLast];
const AL2: [Op; 11] = [Start, Ids, Attach, AttachRemote, AttachInvalid(0), AttachInvalid(1), AttachInvalid(2), Suppress, Detach, InSpan, DropLast];

/// What the model knows of a span context.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Sc {
    trace: u128,
    span: u64,
    sampled: bool,
    state: String,
    remote: bool,
}
impl Sc {
    fn valid(&self) -> bool {
        self.trace != 0 && self.span != 0
    }
    fn of(c: &SpanContext) -> Sc {
        Sc {
            trace: u128::from_be_bytes(c.trace_id().to_bytes()),
            span: u64::from_be_bytes(c.span_id().to_bytes()),
            sampled: c.is_sampled(),
            state: c.trace_state().header(),
            remote: c.is_remote(),
        }
    }
    fn none() -> Sc {
        Sc { trace: 0, span: 0, sampled: false, state: String::new(), remote: false }
    }
}
fn remote(n: u64, sampled: bool) -> SpanContext {
    SpanContext::new(
        TraceId::from(0xabc_0000u128 + n as u128), SpanId::from(0xdef_0000 + n), if sampled { TraceFlags::SAMPLED } else { TraceFlags::default() }, true,
        TraceState::from_key_value([("k", format!("v{n}"))]).unwrap(),
    )
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Smp {
    On,
    Off,
    Parent,
}
struct World {
    tracers: [SdkTracer; 2],
    sink: Sink,
    smp: Smp,
    ids: HashSet<u64>,
    traces: HashSet<u128>,
    // loose spans: the real one and its model, most recent last
    loose: Vec<(Span, Sc)>,
    // attached contexts
    stack: Vec<(Option<Sc>, bool, ContextGuard)>,
    // what must have been handed over: (context, parent span id)
    ended: Vec<(Sc, u64)>,
    parents: std::collections::HashMap<u64, u64>,
    done: HashSet<u64>,
}
impl World {
    fn current(&self) -> (Option<Sc>, bool) {
        self.stack.last().map(|x| (x.0.clone(), x.1)).unwrap_or((None, false))
    }
    /// The span just started under `parent`: check it, return its model.
    fn born(&mut self, s: &SpanContext, recording: bool, parent: Option<&Sc>, suppressed: bool, fixed: Option<(u128, u64)>) -> Result<Sc, Fail> {
        let got = Sc::of(s);
        if suppressed {
            ensure2(!s.is_valid() && !recording && !got.sampled, || format!("a suppressed span is {got:?} recording={recording}"))?;
            return Ok(got);
        }
        let p = parent.filter(|p| p.valid());
        ensure2(s.is_valid(), || format!("invalid ids: {got:?}"))?;
        ensure2(!got.remote, || "a local span is marked remote".into())?;
        if let Some((_, span)) = fixed {
            same2(&got.span, &span, "span id given to the builder")?;
        } else {
            ensure2(self.ids.insert(got.span), || format!("span id {:x} used twice", got.span))?;
        }
        match p {
            Some(p) => {
                same2(&got.trace, &p.trace, "trace id of a child")?;
                same2(&got.state, &p.state, "trace state of a child")?;
            }
            None => {
                if let Some((t, _)) = fixed {
                    same2(&got.trace, &t, "trace id given to the builder")?;
                } else {
                    ensure2(self.traces.insert(got.trace), || format!("trace id {:x} of a root used before", got.trace))?;
                }
                same2(&got.state.as_str(), &"", "trace state of a root")?;
            }
        }
        let want = match self.smp {
            Smp::On => true,
            Smp::Off => false,
            // whatever is active decides, even a span without valid ids
            Smp::Parent => parent.map_or(true, |p| p.sampled),
        };
        same2(&got.sampled, &want, "sampled flag")?;
        same2(&recording, &want, "is_recording")?;
        self.traces.insert(got.trace);
        self.parents.insert(got.span, p.map_or(0, |p| p.span));
        Ok(got)
    }
    fn finish(&mut self, sc: &Sc) {
        if sc.sampled && !sc.remote && sc.valid() && self.done.insert(sc.span) {
            self.ended.push((sc.clone(), self.parents[&sc.span]));
        }
    }
    fn adopt(&mut self, s: Span, m: Sc) {
        self.loose.push((s, m));
    }
    fn apply(&mut self, op: Op, n: u64) -> R {
        let (cur, sup) = self.current();
        match op {
            Start | StartOther => {
                let s = if op == Start { self.tracers[0].start("s") } else { self.tracers[1].span_builder("s").start(&self.tracers[1]) };
                let m = self.born(s.span_context(), s.is_recording(), cur.as_ref(), sup, None)?;
                self.adopt(s, m);
            }
            Root => {
                let s = self.tracers[0].start_with_context("r", &Context::new());
                let m = self.born(s.span_context(), s.is_recording(), None, false, None)?;
                self.adopt(s, m);
            }
            UnderLast => {
                let Some((s, m)) = self.loose.pop() else { return Ok(()) };
                let cx = Context::new().with_span(s);
                let c = self.tracers[0].build_with_context(self.tracers[0].span_builder("c"), &cx);
                let child = self.born(c.span_context(), c.is_recording(), Some(&m), false, None)?;
                drop(cx);
                self.finish(&m);
                self.adopt(c, child);
            }
            Remote(sampled) => {
                let r = remote(n, sampled);
                let cx = Context::current().with_remote_span_context(r.clone());
                let s = self.tracers[0].start_with_context("c", &cx);
                let m = self.born(s.span_context(), s.is_recording(), Some(&Sc::of(&r)), sup, None)?;
                self.adopt(s, m);
            }
            Ids => {
                let (t, i) = (0x77_0000u128 + n as u128, 0x88_0000 + n);
                let s = self.tracers[0].span_builder("i").with_trace_id(TraceId::from(t)).with_span_id(SpanId::from(i)).start(&self.tracers[0]);
                let m = self.born(s.span_context(), s.is_recording(), cur.as_ref(), sup, Some((t, i)))?;
                self.adopt(s, m);
            }
            Attach => {
                let Some((s, m)) = self.loose.pop() else { return Ok(()) };
                // attaching carries the span and keeps the rest of the current context
                let g = if n % 2 == 0 { mark_span_as_active(s) } else { Context::current_with_span(s).attach() };
                self.stack.push((Some(m), sup, g));
            }
            AttachRemote => {
                let r = remote(n, n % 2 == 0);
                let g = Context::current().with_remote_span_context(r.clone()).attach();
                self.stack.push((Some(Sc::of(&r)), sup, g));
            }
            AttachInvalid(k) => {
                let r = SpanContext::new(
                    TraceId::from(if k == 1 { 0x5151u128 } else { 0 }), SpanId::from(if k == 2 { 0x6161u64 } else { 0 }), TraceFlags::new((k > 0) as u8), k > 0,
                    TraceState::NONE,
                );
                let g = Context::current().with_remote_span_context(r.clone()).attach();
                self.stack.push((Some(Sc::of(&r)), sup, g));
            }
            Suppress => {
                let g = Context::enter_telemetry_suppressed_scope();
                self.stack.push((cur, true, g));
            }
            Detach => {
                if let Some((m, _, g)) = self.stack.pop() {
                    // the last context holding a span ends it when it goes away
                    drop(g);
                    if let Some(m) = m {
                        if !self.stack.iter().any(|x| x.0.as_ref() == Some(&m)) {
                            self.finish(&m);
                        }
                    }
                }
            }
            EndCurrent => {
                Context::map_current(|cx| cx.span().end());
                if let Some(m) = cur {
                    self.finish(&m);
                }
            }
            DropLast => {
                if let Some((s, m)) = self.loose.pop() {
                    drop(s);
                    self.finish(&m);
                }
            }
            InSpan => {
                let t = self.tracers[0].clone();
                let (outer, inner, innermost) = t.in_span("o", |cx| {
                    let here = Sc::of(Context::current().span().span_context());
                    let o = Sc::of(cx.span().span_context());
                    let s = t.start("inner");
                    let i = (s.span_context().clone(), s.is_recording());
                    ((o, cx.span().span_context().clone(), cx.span().is_recording()), i, here)
                });
                same2(&innermost, &outer.0, "the current span inside in_span")?;
                let o = self.born(&outer.1, outer.2, cur.as_ref(), sup, None)?;
                let i = self.born(&inner.0, inner.1, Some(&o), sup, None)?;
                self.finish(&i);
                self.finish(&o);
            }
        }
        self.check()
    }
    fn check(&self) -> R {
        let (cur, sup) = self.current();
        let got = Context::map_current(|cx| (cx.has_active_span().then(|| Sc::of(cx.span().span_context())), cx.is_telemetry_suppressed()));
        same!(got, (cur.clone(), sup), "current span and suppression");
        same!(Sc::of(Context::current().span().span_context()), cur.unwrap_or(Sc::none()), "span of the current context");
        let ended: Vec<(Sc, u64)> =
            self.sink.ended.lock().unwrap().iter().map(|d| (Sc::of(&d.span_context), u64::from_be_bytes(d.parent_span_id.to_bytes()))).collect();
        same!(ended, self.ended, "spans ended, with their parents");
        Ok(())
    }
    fn key(&self) -> (Vec<(bool, bool)>, usize, usize, bool) {
        (
            self.stack.iter().map(|x| (x.0.as_ref().is_some_and(|s| s.valid()), x.1)).collect(),
            self.loose.len(),
            self.ended.len(),
            self.current().0.is_some_and(|s| self.done.contains(&s.span)),
        )
    }
}
fn ensure2(c: bool, m: impl FnOnce() -> String) -> R {
    if c { Ok(()) } else { Err(m().into()) }
}
fn same2<T: PartialEq + std::fmt::Debug>(g: &T, w: &T, m: &str) -> R {
    same!(g, w, "{m}");
    Ok(())
}
pub fn bench(smp: Smp) -> (SdkTracerProvider, Sink) {
    let sink = Sink::default();
    let b = SdkTracerProvider::builder().with_span_processor(sink.clone());
    let p = match smp {
        Smp::On => b.with_sampler(Sampler::AlwaysOn),
        Smp::Off => b.with_sampler(Sampler::AlwaysOff),
        Smp::Parent => b.with_sampler(Sampler::ParentBased(Box::new(Sampler::AlwaysOn))),
    }
    .build();
    (p, sink)
}
fn run(p: &SdkTracerProvider, sink: &Sink, smp: Smp, s: &[Op], o: &mut Obs) -> R {
    sink.take();
    let mut w = World {
        tracers: [p.tracer("a"), p.tracer("b")], sink: sink.clone(), smp, ids: HashSet::new(), traces: HashSet::new(), loose: vec![], stack: vec![], ended: vec![],
        parents: Default::default(), done: HashSet::new(),
    };
    let mut r = w.check();
    for (n, op) in s.iter().enumerate() {
        if r.is_err() {
            break;
        }
        r = w.apply(*op, n as u64 + 1).map_err(|f| format!("step {n} {op:?}: {}", f.msg).into());
        o.step(&w.key());
    }
    o.outcome(&w.key());
    while let Some(x) = w.stack.pop() {
        drop(x);
    }
    r
}
fn histories(r: &mut Run) {
    let d = r.pick(5, 6);
    for smp in [Smp::On, Smp::Parent, Smp::Off] {
        let (p, sink) = bench(smp);
        r.sequences(&AL, if smp == Smp::Off { d - 1 } else { d }, |s| format!("{smp:?} {s:?}"), |s, o| run(&p, &sink, smp, s, o));
    }
}
fn ids(r: &mut Run) {
    let d = r.pick(5, 6);
    for smp in [Smp::On, Smp::Parent] {
        let (p, sink) = bench(smp);
        r.sequences(&AL2, d, |s| format!("{smp:?} {s:?}"), |s, o| run(&p, &sink, smp, s, o));
    }
}
/// Starting a span on a thread does not touch another thread's context, and ids differ between threads.
fn threads(r: &mut Run) {
    let n = r.pick(200u64, 5_000);
    for k in 0..8usize {
        r.case(|| format!("{n} spans on each of {} threads", k + 1), |o| {
            let (p, _) = bench(Smp::Parent);
            let hs: Vec<_> = (0..=k)
                .map(|_| {
                    let t = p.tracer("t");
                    std::thread::spawn(move || {
                        (0..n)
                            .map(|_| {
                                let s = t.start("x");
                                assert!(!Context::current().has_active_span());
                                (s.span_context().trace_id(), s.span_context().span_id())
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            let mut seen = (HashSet::new(), HashSet::new());
            for h in hs {
                for (t, s) in h.join().map_err(|_| "a thread panicked")? {
                    ensure!(seen.0.insert(t) && seen.1.insert(s), "id used twice: {t} {s}");
                    ensure!(t != TraceId::INVALID && s != SpanId::INVALID, "zero id");
                }
            }
            o.step(&k);
            Ok(())
        });
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C28", "histories", histories), family("C28", "ids", ids), family("C28", "threads", threads)]
}
