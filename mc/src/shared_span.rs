//! C09: one active span used by several threads through its context.
use crate::util::ExpMode;
use mcstd::explore::{scenario, Scenario};
use mcstd::mc;
use mcstd::real::sync::Mutex as RMutex;
use opentelemetry::trace::{SpanContext, SpanId, Status, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer as _, TracerProvider as _};
use opentelemetry::{Context, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::trace::{SdkTracerProvider, Span, SpanData, SpanProcessor};
use std::sync::Arc;
use std::time::{Duration, SystemTime};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum So {
    /// attribute, event, link, name, status carrying this number
    A(u32),
    E(u32),
    L(u32),
    N(u32),
    /// status Error(n)
    Bad(u32),
    Okay,
    /// end with timestamp n
    End(u32),
    /// is_recording
    Q,
    /// attach the thread's context, end through the current context, detach
    AttachEnd(u32),
    /// drop the thread's context now
    Drop,
}
use So::*;

#[derive(Clone, Debug)]
enum He {
    Do(usize, usize),
    Did(usize, usize, Option<bool>),
    OnEnd(usize, Box<SpanData>),
}
#[derive(Debug, Default)]
struct Hs {
    ev: RMutex<Vec<He>>,
}
impl Hs {
    fn push(&self, e: He) {
        mc::log(match &e {
            He::OnEnd(p, d) => format!("OnEnd({p}, attrs {:?} name {})", d.attributes, d.name),
            o => format!("{o:?}"),
        });
        self.ev.lock().unwrap().push(e);
    }
}
#[derive(Debug)]
struct Pr(usize, Arc<Hs>);
impl SpanProcessor for Pr {
    fn on_start(&self, _: &mut Span, _: &Context) {}
    fn on_end(&self, span: SpanData) {
        mc::step("processor.on_end.call");
        // telemetry produced by a processor looks at the current context
        let _ = Context::current();
        self.1.push(He::OnEnd(self.0, Box::new(span)));
        mc::step("processor.on_end");
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
fn ts(n: u32) -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::from_secs(n as u64)
}
fn link(n: u32) -> SpanContext {
    SpanContext::new(TraceId::from_u128(n as u128 + 1), SpanId::from_u64(n as u64 + 1), TraceFlags::SAMPLED, true, TraceState::default())
}

fn run_ops(t: usize, cx: Context, ops: &[So], h: &Arc<Hs>) {
    let mut cx = Some(cx);
    for (i, o) in ops.iter().enumerate() {
        h.push(He::Do(t, i));
        let mut r = None;
        if let Drop = o {
            cx = None;
        } else {
            let c = cx.as_ref().unwrap();
            let s = c.span();
            match *o {
                A(n) => s.set_attribute(KeyValue::new(format!("k{n}"), n as i64)),
                E(n) => s.add_event(format!("e{n}"), vec![KeyValue::new("n", n as i64)]),
                L(n) => {
                    // SpanRef offers no add_link: an event with a timestamp takes its place
                    let _ = link(n);
                    s.add_event_with_timestamp(format!("l{n}"), ts(n), vec![])
                }
                N(n) => s.update_name(format!("n{n}")),
                Bad(n) => s.set_status(Status::error(format!("x{n}"))),
                Okay => s.set_status(Status::Ok),
                End(n) => s.end_with_timestamp(ts(n)),
                Q => r = Some(s.is_recording()),
                AttachEnd(n) => {
                    let g = c.clone().attach();
                    let cur = Context::current();
                    cur.span().end_with_timestamp(ts(n));
                    mcstd::real::mem::drop(g);
                }
                Drop => unreachable!(),
            }
        }
        h.push(He::Did(t, i, r));
    }
}

fn shared(name: &'static str, q: u32, t: u32, procs: usize, guard_drop: bool, threads: Vec<Vec<So>>) -> Scenario {
    let _ = ExpMode::Ok;
    scenario("C09", name, q, t, move || {
        let h = Arc::new(Hs::default());
        let mut b = SdkTracerProvider::builder();
        for p in 0..procs {
            b = b.with_span_processor(Pr(p, h.clone()));
        }
        let provider = b.build();
        let span = provider.tracer("t").start("n0");
        let cx = Context::new().with_span(span);
        let hs: Vec<_> = threads[1..]
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                let (c, o, h) = (cx.clone(), ops.clone(), h.clone());
                std::thread::spawn(move || run_ops(i + 1, c, &o, &h))
            })
            .collect();
        if guard_drop {
            // the first thread holds the context only as its current context
            let g = cx.attach();
            let c = Context::current();
            run_ops(0, c, &threads[0], &h);
            drop(g);
        } else {
            run_ops(0, cx, &threads[0], &h);
        }
        for x in hs {
            x.join().unwrap();
        }
        let ev = h.ev.lock().unwrap().clone();
        judge(&ev, &threads, procs)
    })
}

fn judge(ev: &[He], threads: &[Vec<So>], procs: usize) -> String {
    let bad = |m: String| -> ! { mc::violation(format!("{m}; history {ev:?}")) };
    let at = |f: &dyn Fn(&He) -> bool| ev.iter().position(|e| f(e));
    let mut first: Option<SpanData> = None;
    for p in 0..procs {
        let got: Vec<(usize, &SpanData)> = ev.iter().enumerate().filter_map(|(i, e)| if let He::OnEnd(q, d) = e { if *q == p { Some((i, &**d)) } else { None } } else { None }).collect();
        if got.len() != 1 {
            bad(format!("processor {p} was handed the span {} times", got.len()));
        }
        match &first {
            None => first = Some(got[0].1.clone()),
            Some(f) => {
                if f != got[0].1 {
                    bad("the processors were handed different data".into());
                }
            }
        }
    }
    let d = first.unwrap();
    // intervals of the operations
    let mut ops = Vec::new();
    for (t, os) in threads.iter().enumerate() {
        for (i, o) in os.iter().enumerate() {
            let s = at(&|e| matches!(e, He::Do(a, b) if (*a, *b) == (t, i))).unwrap();
            let e = at(&|e| matches!(e, He::Did(a, b, _) if (*a, *b) == (t, i))).unwrap();
            ops.push((t, i, *o, s, e));
        }
    }
    let ends: Vec<_> = ops.iter().filter(|o| matches!(o.2, End(_) | AttachEnd(_))).collect();
    // the span cannot have ended before the first end began; it has ended once the first end returned
    let end_earliest = ends.iter().map(|o| o.3).min().unwrap_or(usize::MAX);
    let end_latest = ends.iter().map(|o| o.4).min().unwrap_or(usize::MAX);
    for o in &ops {
        if let Q = o.2 {
            let r = ev.iter().find_map(|e| if let He::Did(a, b, Some(r)) = e { if (*a, *b) == (o.0, o.1) { Some(*r) } else { None } } else { None }).unwrap();
            if o.4 < end_earliest && !r {
                bad("the span claims not to be recording before anything ended it".into());
            }
            if o.3 > end_latest && r {
                bad("the span claims to be recording after it ended".into());
            }
        }
    }
    // sequences of updates: present exactly once, in real-time order
    let seq = |what: &str, got: Vec<u32>, pick: &dyn Fn(&So) -> Option<u32>| {
        for (i, n) in got.iter().enumerate() {
            if got[..i].contains(n) {
                bad(format!("{what} {n} is exported twice"));
            }
        }
        for o in &ops {
            if let Some(n) = pick(&o.2) {
                let pos = got.iter().position(|x| *x == n);
                if o.4 < end_earliest && pos.is_none() {
                    bad(format!("{what} {n}, set before the span ended, is missing from {got:?}"));
                }
                if o.3 > end_latest && pos.is_some() {
                    bad(format!("{what} {n}, set after the span ended, is exported"));
                }
                for o2 in &ops {
                    if let Some(m) = pick(&o2.2) {
                        if let (Some(a), Some(b)) = (pos, got.iter().position(|x| *x == m)) {
                            if o.4 < o2.3 && a > b {
                                bad(format!("{what}s {n} and {m} are exported in the wrong order"));
                            }
                        }
                    }
                }
            }
        }
        for n in &got {
            if !ops.iter().any(|o| pick(&o.2) == Some(*n)) {
                bad(format!("{what} {n} was never set"));
            }
        }
    };
    let num = |s: &str| s[1..].parse::<u32>().unwrap();
    seq("attribute", d.attributes.iter().map(|k| num(k.key.as_str())).collect(), &|o| if let A(n) = o { Some(*n) } else { None });
    seq("event", d.events.iter().map(|e| num(&e.name)).collect(), &|o| match o { E(n) | L(n) => Some(*n), _ => None });
    for e in d.events.iter() {
        let n = num(&e.name);
        let ok = if e.name.starts_with('e') {
            e.attributes == vec![KeyValue::new("n", n as i64)]
        } else {
            e.timestamp == ts(n) && e.attributes.is_empty()
        };
        if !ok {
            bad(format!("event {e:?} is torn"));
        }
    }
    // last writer wins: the final value stems from an update that no other update made before the
    // end follows
    let last = |what: &str, got: Option<u32>, pick: &dyn Fn(&So) -> Option<u32>| {
        let ws: Vec<_> = ops.iter().filter_map(|o| pick(&o.2).map(|n| (n, o.3, o.4))).collect();
        match got {
            None => {
                if let Some(w) = ws.iter().find(|w| w.2 < end_earliest) {
                    bad(format!("{what} {} was set before the end but is not exported", w.0));
                }
            }
            Some(n) => {
                let Some(w) = ws.iter().find(|w| w.0 == n) else { bad(format!("{what} {n} was never set")) };
                if w.1 > end_latest {
                    bad(format!("{what} {n} was set after the end"));
                }
                if let Some(x) = ws.iter().find(|x| x.1 > w.2 && x.2 < end_earliest) {
                    bad(format!("{what} {n} is exported although {} replaced it", x.0));
                }
            }
        }
    };
    last("name", if d.name == "n0" { None } else { Some(num(&d.name)) }, &|o| if let N(n) = o { Some(*n) } else { None });
    let oks = || ops.iter().filter(|o| o.2 == Okay);
    match &d.status {
        Status::Ok => {
            if !oks().any(|o| o.3 < end_latest) {
                bad("status Ok was never set".into());
            }
        }
        o => {
            if oks().any(|o| o.4 < end_earliest) {
                bad(format!("status is {o:?} although Ok was set before the end"));
            }
            let got = match o {
                Status::Error { description } => Some(num(description)),
                _ => None,
            };
            last("error status", got, &|o| if let Bad(n) = o { Some(*n) } else { None });
        }
    }
    // the end time is that of an end call that could have been the first
    if !ends.is_empty() {
        let okk = ends.iter().any(|o| {
            let n = match o.2 { End(n) | AttachEnd(n) => n, _ => 0 };
            d.end_time == ts(n) && o.3 <= end_latest
        });
        if !okk {
            bad(format!("end time {:?} is none of the given ones", d.end_time));
        }
    }
    format!("{:?} {:?} {} {:?}", d.attributes.iter().map(|k| k.key.to_string()).collect::<Vec<_>>(), d.events.iter().map(|e| e.name.to_string()).collect::<Vec<_>>(), d.name, d.status)
}

pub fn scenarios() -> Vec<Scenario> {
    vec![
        shared("span.updates_vs_end", 8, 99, 1, false, vec![vec![A(1), E(2), End(90)], vec![A(3), E(4), A(5)]]),
        shared("span.two_ends", 8, 99, 2, false, vec![vec![A(1), End(90), A(2), Q], vec![E(3), End(91), E(4), Q]]),
        shared("span.three_ends", 8, 99, 2, false, vec![vec![A(1), End(90)], vec![A(2), End(91)], vec![A(3), End(92)]]),
        shared("span.names_and_status", 8, 99, 1, false, vec![vec![N(1), Bad(1), N(2), End(90)], vec![N(3), Okay, Bad(4), N(5)]]),
        shared("span.errors", 8, 99, 1, false, vec![vec![Bad(1), Bad(2), End(90)], vec![Bad(3), Q]]),
        shared("span.drop_ends", 8, 99, 2, false, vec![vec![A(1), E(2)], vec![A(3), Drop], vec![E(4), L(5)]]),
        shared("span.guard_drop_ends", 8, 99, 2, true, vec![vec![A(1), Drop], vec![A(3), Drop]]),
        shared("span.end_vs_drop", 8, 99, 2, false, vec![vec![A(1), Drop], vec![E(2), End(90), Drop]]),
        shared("span.attached_end", 8, 99, 2, true, vec![vec![A(1), AttachEnd(90), Q], vec![L(2), AttachEnd(91), A(3)]]),
        shared("span.no_processor", 8, 99, 1, false, vec![vec![Q, End(90), Q], vec![Q, Q]]),
    ]
}
