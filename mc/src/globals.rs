//! C15: the process-wide providers and propagator.  Every read of a registry must be explained by
//! a register whose writes and reads happen at single points inside their calls.
use mcstd::explore::{scenario, Scenario};
use mcstd::mc;
use mcstd::real::sync::Mutex as RMutex;
use opentelemetry::global;
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::propagation::text_map_propagator::FieldIter;
use opentelemetry::propagation::{Extractor, Injector, TextMapPropagator};
use opentelemetry::trace::noop::{NoopTextMapPropagator, NoopTracerProvider};
use opentelemetry::trace::{Span as _, Tracer as _, TracerProvider as _};
use opentelemetry::Context;
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData};
use opentelemetry_sdk::metrics::{ManualReader, SdkMeterProvider};
use opentelemetry_sdk::trace::{SdkTracerProvider, Span, SpanData, SpanProcessor};
use std::sync::Arc;

/// (start, end, write?, value, what a write says it replaced); value 0 is the inert initial one
#[derive(Clone, Debug)]
struct Acc(usize, usize, bool, u32, Option<u32>);
#[derive(Default, Debug)]
struct Reg {
    n: RMutex<usize>,
    acc: RMutex<Vec<Acc>>,
    /// item -> providers that received it
    got: RMutex<Vec<(u32, u32)>>,
}
impl Reg {
    fn tick(&self) -> usize {
        let mut g = self.n.lock().unwrap();
        *g += 1;
        *g
    }
    fn add(&self, s: usize, w: bool, v: u32) {
        let a = Acc(s, self.tick(), w, v, None);
        mc::log(format!("{a:?}"));
        self.acc.lock().unwrap().push(a);
    }
    /// exists a linearization of all accesses?
    fn judge(&self) -> String {
        let acc = self.acc.lock().unwrap().clone();
        fn go(acc: &[Acc], done: u32, val: u32) -> bool {
            if done == (1 << acc.len()) - 1 {
                return true;
            }
            let first_end = acc.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, a)| a.1).min().unwrap();
            for (i, a) in acc.iter().enumerate() {
                if done >> i & 1 == 0 && a.0 < first_end && (a.2 || a.3 == val) && a.4.is_none_or(|o| o == val) && go(acc, done | 1 << i, if a.2 { a.3 } else { val }) {
                    return true;
                }
            }
            false
        }
        if !go(&acc, 0, 0) {
            mc::violation(format!("no order of the replacements explains what the readers saw and the replacers got back (start, end, is_write, provider, given back): {acc:?}"));
        }
        let mut v: Vec<String> = acc.iter().filter(|a| !a.2).map(|a| a.3.to_string()).collect();
        v.sort();
        v.join(",")
    }
}

#[derive(Debug)]
struct Pr(u32, Arc<Reg>);
impl SpanProcessor for Pr {
    fn on_start(&self, _: &mut Span, _: &Context) {}
    fn on_end(&self, span: SpanData) {
        self.1.got.lock().unwrap().push((span.name.parse().unwrap(), self.0));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
/// a propagator that writes its number twice
#[derive(Debug)]
struct Tag(u32);
impl TextMapPropagator for Tag {
    fn inject_context(&self, _: &Context, i: &mut dyn Injector) {
        i.set("a", self.0.to_string());
        mc::step("propagator.inject");
        i.set("b", self.0.to_string());
    }
    fn extract_with_context(&self, cx: &Context, _: &dyn Extractor) -> Context {
        cx.clone()
    }
    fn fields(&self) -> FieldIter<'_> {
        FieldIter::new(&[])
    }
}

#[derive(Clone, Copy, Debug)]
enum Go {
    /// install provider n
    Set(u32),
    /// obtain from the registry and use at once (item number)
    Use(u32),
    /// obtain and keep
    Get,
    /// use what was kept
    UseKept(u32),
}
use Go::*;

fn spans(name: &'static str, q: u32, t: u32, threads: Vec<Vec<Go>>) -> Scenario {
    scenario("C15", name, q, t, move || {
        global::set_tracer_provider(NoopTracerProvider::new());
        let r = Arc::new(Reg::default());
        let ps: Vec<SdkTracerProvider> = (1..=3).map(|n| SdkTracerProvider::builder().with_span_processor(Pr(n, r.clone())).build()).collect();
        let body = |ops: &[Go], r: &Arc<Reg>, ps: &[SdkTracerProvider]| {
            let mut kept: Option<(usize, usize, global::BoxedTracer, Option<u32>)> = None;
            for o in ops {
                match *o {
                    Set(n) => {
                        let s = r.tick();
                        let old = global::set_tracer_provider(ps[n as usize - 1].clone());
                        let e = r.tick();
                        // the provider handed back is the one that was replaced
                        let i = 1000 + e as u32;
                        old.tracer("old").start(i.to_string()).end();
                        let w = who(r, i);
                        mc::log(format!("set {n} gave back {w}"));
                        r.acc.lock().unwrap().push(Acc(s, e, true, n, Some(w)));
                    }
                    Use(i) => {
                        let s = r.tick();
                        let t = global::tracer("t");
                        let e = r.tick();
                        let mut sp = t.start(i.to_string());
                        sp.end();
                        let w = who(r, i);
                        r.acc.lock().unwrap().push(Acc(s, e, false, w, None));
                    }
                    Get => {
                        let s = r.tick();
                        let t = global::tracer_provider().tracer("k");
                        kept = Some((s, r.tick(), t, None));
                    }
                    UseKept(i) => {
                        let k = kept.as_mut().unwrap();
                        let mut sp = k.2.start(i.to_string());
                        sp.end();
                        let w = who(r, i);
                        match k.3 {
                            None => {
                                k.3 = Some(w);
                                r.acc.lock().unwrap().push(Acc(k.0, k.1, false, w, None));
                            }
                            Some(x) if x != w => mc::violation(format!("a tracer obtained from provider {x} later used provider {w}")),
                            _ => {}
                        }
                    }
                }
            }
        };
        let hs: Vec<_> = threads[1..]
            .iter()
            .map(|o| {
                let (o, r, ps) = (o.clone(), r.clone(), ps.clone());
                std::thread::spawn(move || body(&o, &r, &ps))
            })
            .collect();
        body(&threads[0], &r, &ps);
        for h in hs {
            h.join().unwrap();
        }
        global::set_tracer_provider(NoopTracerProvider::new());
        r.judge()
    })
}
/// which provider received item i (0: none)
fn who(r: &Reg, i: u32) -> u32 {
    let v: Vec<u32> = r.got.lock().unwrap().iter().filter(|x| x.0 == i).map(|x| x.1).collect();
    match v[..] {
        [] => 0,
        [n] => n,
        _ => mc::violation(format!("span {i} reached providers {v:?}")),
    }
}

fn meters(name: &'static str, q: u32, t: u32, threads: Vec<Vec<Go>>) -> Scenario {
    scenario("C15", name, q, t, move || {
        global::set_meter_provider(SdkMeterProvider::default());
        let r = Arc::new(Reg::default());
        let rd: Vec<Arc<ManualReader>> = (0..3).map(|_| Arc::new(ManualReader::builder().build())).collect();
        let ps: Vec<SdkMeterProvider> = rd.iter().map(|x| SdkMeterProvider::builder().with_reader(crate::metrics::Shared(x.clone())).build()).collect();
        // (start, end, item): which provider it reached is read off at the end
        let uses: Arc<RMutex<Vec<(usize, usize, u32)>>> = Arc::default();
        let body = |ops: &[Go], r: &Arc<Reg>, ps: &[SdkMeterProvider], uses: &Arc<RMutex<Vec<(usize, usize, u32)>>>| {
            let mut kept = None;
            for o in ops {
                match *o {
                    Set(n) => {
                        let s = r.tick();
                        global::set_meter_provider(ps[n as usize - 1].clone());
                        r.add(s, true, n);
                    }
                    Use(i) => {
                        let s = r.tick();
                        let m = global::meter("m");
                        let e = r.tick();
                        m.u64_counter("c").build().add(1 << i, &[]);
                        uses.lock().unwrap().push((s, e, i));
                    }
                    Get => {
                        let s = r.tick();
                        let m = global::meter_provider().meter("m");
                        kept = Some((s, r.tick(), m));
                    }
                    UseKept(i) => {
                        let (s, e, m) = kept.as_ref().unwrap();
                        m.u64_counter("c").build().add(1 << i, &[]);
                        uses.lock().unwrap().push((*s, *e, i));
                    }
                }
            }
        };
        let hs: Vec<_> = threads[1..]
            .iter()
            .map(|o| {
                let (o, r, ps, u) = (o.clone(), r.clone(), ps.clone(), uses.clone());
                std::thread::spawn(move || body(&o, &r, &ps, &u))
            })
            .collect();
        body(&threads[0], &r, &ps, &uses);
        for h in hs {
            h.join().unwrap();
        }
        global::set_meter_provider(SdkMeterProvider::default());
        use opentelemetry_sdk::metrics::reader::MetricReader;
        let sums: Vec<u64> = rd
            .iter()
            .map(|x| {
                let mut m = crate::metrics::rm();
                let _ = x.collect(&mut m);
                m.scope_metrics.iter().flat_map(|s| &s.metrics).map(|m| match &m.data {
                    AggregatedMetrics::U64(MetricData::Sum(s)) => s.data_points.iter().map(|p| p.value).sum::<u64>(),
                    _ => 0,
                }).sum()
            })
            .collect();
        for (s, e, i) in uses.lock().unwrap().iter() {
            let w: Vec<u32> = (0..3).filter(|k| sums[*k] >> i & 1 == 1).map(|k| k as u32 + 1).collect();
            match w[..] {
                [] => r.acc.lock().unwrap().push(Acc(*s, *e, false, 0, None)),
                [n] => r.acc.lock().unwrap().push(Acc(*s, *e, false, n, None)),
                _ => mc::violation(format!("measurement {i} reached meter providers {w:?}")),
            }
        }
        r.judge()
    })
}

fn props(name: &'static str, q: u32, t: u32, threads: Vec<Vec<Go>>) -> Scenario {
    scenario("C15", name, q, t, move || {
        global::set_text_map_propagator(NoopTextMapPropagator::new());
        let r = Arc::new(Reg::default());
        let body = |ops: &[Go], r: &Arc<Reg>| {
            for o in ops {
                let s = r.tick();
                match *o {
                    Set(n) => {
                        global::set_text_map_propagator(Tag(n));
                        r.add(s, true, n);
                    }
                    _ => {
                        let mut m = std::collections::HashMap::<String, String>::new();
                        global::get_text_map_propagator(|p| p.inject_context(&Context::new(), &mut m));
                        if m.get("a") != m.get("b") {
                            mc::violation(format!("half of one propagator and half of another ran: {m:?}"));
                        }
                        r.add(s, false, m.get("a").map(|x| x.parse().unwrap()).unwrap_or(0));
                    }
                }
            }
        };
        let hs: Vec<_> = threads[1..]
            .iter()
            .map(|o| {
                let (o, r) = (o.clone(), r.clone());
                std::thread::spawn(move || body(&o, &r))
            })
            .collect();
        body(&threads[0], &r);
        for h in hs {
            h.join().unwrap();
        }
        global::set_text_map_propagator(NoopTextMapPropagator::new());
        r.judge()
    })
}

pub fn scenarios() -> Vec<Scenario> {
    let sets: Vec<(&str, Vec<Vec<Go>>)> = vec![
        ("install", vec![vec![Use(1), Set(1), Use(2)], vec![Use(3), Use(4), Use(5)]]),
        ("replace_twice", vec![vec![Set(1), Set(2)], vec![Use(3), Use(4)], vec![Use(5), Use(6)]]),
        ("two_setters", vec![vec![Set(1), Use(1)], vec![Set(2), Use(2)], vec![Use(3), Use(4)]]),
        ("kept", vec![vec![Get, UseKept(1), Set(1), Get, UseKept(2), UseKept(3)], vec![Get, UseKept(4), Set(2), UseKept(5)]]),
    ];
    let mut v = Vec::new();
    let l = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    for (n, t) in &sets {
        v.push(spans(l(format!("global_tracer.{n}")), 3, 4, t.clone()));
        v.push(meters(l(format!("global_meter.{n}")), 2, 3, t.clone()));
        if *n != "kept" {
            v.push(props(l(format!("global_propagator.{n}")), 4, 5, t.clone()));
        }
    }
    v
}
