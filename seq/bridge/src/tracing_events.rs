//! The bridge from the tracing crate. Call sites are made at run time, so that any combination of level, name, target and
//! fields can be enumerated.
use crate::facade::Point;
use crate::record::*;
use bmc::{ensure, family, product, Family, Run};
use opentelemetry_appender_tracing::layer::OpenTelemetryTracingBridge;
use std::sync::OnceLock;
use tracing::dispatcher::Dispatch;
use tracing::field::{debug, display, Value};
use tracing_core::callsite::{Callsite, Identifier};
use tracing_core::field::{Field, FieldSet};
use tracing_core::{Event, Interest, Kind, Level, Metadata};
use tracing_subscriber::filter::LevelFilter;
use tracing_subscriber::prelude::*;

pub const LEVELS: [(Level, i32, &str); 5] = [(Level::ERROR, 17, "ERROR"), (Level::WARN, 13, "WARN"), (Level::INFO, 9, "INFO"), (Level::DEBUG, 5, "DEBUG"), (Level::TRACE, 1, "TRACE")];

struct Site(OnceLock<&'static Metadata<'static>>);
impl Callsite for Site {
    fn set_interest(&self, _: Interest) {}
    fn metadata(&self) -> &Metadata<'_> {
        self.0.get().unwrap()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Meta {
    pub name: &'static str,
    pub target: &'static str,
    pub level: usize,
    pub file: Option<&'static str>,
    pub line: Option<u32>,
    pub module: Option<&'static str>,
    pub fields: Vec<&'static str>,
    pub span: bool,
}
pub fn meta(m: &Meta) -> &'static Metadata<'static> {
    thread_local! { static C: std::cell::RefCell<std::collections::HashMap<Meta, &'static Metadata<'static>>> = Default::default(); }
    C.with(|c| {
        *c.borrow_mut().entry(m.clone()).or_insert_with(|| {
            let site: &'static Site = Box::leak(Box::new(Site(OnceLock::new())));
            let names: &'static [&'static str] = Box::leak(m.fields.clone().into_boxed_slice());
            let md = Metadata::new(m.name, m.target, LEVELS[m.level].0, m.file, m.line, m.module, FieldSet::new(names, Identifier(site)), if m.span { Kind::SPAN } else { Kind::EVENT });
            let md: &'static Metadata<'static> = Box::leak(Box::new(md));
            let _ = site.0.set(md);
            md
        })
    })
}
#[derive(Clone, Debug)]
pub enum V {
    Bool(bool),
    Str(&'static str),
    Owned(&'static str),
    I64(i64),
    U64(u64),
    I128(i128),
    U128(u128),
    F64(f64),
    U8(u8),
    I32(i32),
    F32(f32),
    Debug(Vec<u8>),
    Display(Point),
    Error,
    Bytes(Vec<u8>),
    Empty,
    Absent,
    Some(i64),
}
impl V {
    fn boxed(&self) -> Box<dyn Value> {
        match self {
            V::Bool(x) => Box::new(*x),
            V::Str(x) => Box::new(*x),
            V::Owned(x) => Box::new(x.to_string()),
            V::I64(x) => Box::new(*x),
            V::U64(x) => Box::new(*x),
            V::I128(x) => Box::new(*x),
            V::U128(x) => Box::new(*x),
            V::F64(x) => Box::new(*x),
            V::U8(x) => Box::new(*x),
            V::I32(x) => Box::new(*x),
            V::F32(x) => Box::new(*x),
            V::Debug(x) => Box::new(debug(x.clone())),
            V::Display(x) => Box::new(display(x.clone())),
            V::Error => {
                let e: Box<dyn std::error::Error + 'static> = Box::new(Point(3));
                Box::new(e)
            }
            V::Bytes(b) => {
                let b: Box<[u8]> = b.clone().into();
                Box::new(b)
            }
            V::Empty => Box::new(tracing::field::Empty),
            V::Absent => Box::new(None::<i64>),
            V::Some(x) => Box::new(Some(*x)),
        }
    }
    /// The attribute's key and value.
    fn expected(&self, key: &str) -> Option<(String, String)> {
        let int = |x: &dyn std::fmt::Display, fits: bool| if fits { format!("i{x}") } else { format!("s\"{x}\"") };
        let d = |x: f64| format!("d{:x}", if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() });
        let v = match self {
            V::Bool(b) => format!("b{b}"),
            V::Str(s) | V::Owned(s) => format!("s{s:?}"),
            V::I64(x) | V::Some(x) => int(x, true),
            V::U64(x) => int(x, *x <= i64::MAX as u64),
            V::I128(x) => int(x, *x <= i64::MAX as i128 && *x >= i64::MIN as i128),
            V::U128(x) => int(x, *x <= i64::MAX as u128),
            V::F64(x) => d(*x),
            V::F32(x) => d(*x as f64),
            V::U8(x) => int(x, true),
            V::I32(x) => int(x, true),
            V::Debug(x) => format!("s{:?}", format!("{x:?}")),
            V::Display(p) => format!("s{:?}", p.to_string()),
            V::Error => return Some(("exception.message".into(), "s\"<3>\"".into())),
            V::Bytes(b) => format!("y{b:?}"),
            V::Empty | V::Absent => return None,
        };
        Some((key.to_string(), v))
    }
}
fn values() -> Vec<V> {
    let m = i64::MAX;
    vec![
        V::Str("v"),
        V::Bool(true),
        V::Bool(false),
        V::Str(""),
        V::Owned("h\u{e9}\"\n"),
        V::I64(0),
        V::I64(i64::MIN),
        V::I64(m),
        V::U64(0),
        V::U64(m as u64),
        V::U64(m as u64 + 1),
        V::U64(u64::MAX),
        V::I128(-1),
        V::I128(m as i128),
        V::I128(m as i128 + 1),
        V::I128(i64::MIN as i128),
        V::I128(i64::MIN as i128 - 1),
        V::I128(i128::MIN),
        V::U128(5),
        V::U128(m as u128),
        V::U128(m as u128 + 1),
        V::U128(u128::MAX),
        V::F64(1.5),
        V::F64(-0.0),
        V::F64(f64::NAN),
        V::F64(f64::INFINITY),
        V::F64(f64::MAX),
        V::F32(0.5),
        V::U8(255),
        V::I32(i32::MIN),
        V::Debug(vec![1, 2]),
        V::Display(Point(4)),
        V::Error,
        V::Bytes(vec![]),
        V::Bytes(vec![0, 255]),
        V::Empty,
        V::Absent,
        V::Some(3),
    ]
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Message {
    Absent,
    Formatted(&'static str),
    Text(&'static str),
    Display,
}
/// One event the way the macros of tracing make one.
fn fire(d: &Dispatch, m: &Meta, message: Message, fields: &[(&'static str, V)]) {
    let mut m = m.clone();
    let mut vals: Vec<Box<dyn Value>> = vec![];
    m.fields.clear();
    match message {
        Message::Absent => {}
        Message::Formatted(_) | Message::Text(_) | Message::Display => m.fields.push("message"),
    }
    m.fields.extend(fields.iter().map(|f| f.0));
    let md = meta(&m);
    if !d.enabled(md) {
        return;
    }
    vals.extend(fields.iter().map(|f| f.1.boxed()));
    let names: Vec<Field> = md.fields().iter().collect();
    let send = |first: Option<&dyn Value>| {
        let l: Vec<Option<&dyn Value>> = first.into_iter().map(Some).chain(vals.iter().map(|v| Some(&**v as &dyn Value))).collect();
        macro_rules! go { ($($n:literal)*) => { match l.len() { $($n => {
            let a: [(&Field, Option<&dyn Value>); $n] = std::array::from_fn(|i| (&names[i], l[i]));
            let vs = md.fields().value_set(&a);
            d.event(&Event::new(md, &vs));
        })* _ => unreachable!() } } }
        go!(0 1 2 3 4 5)
    };
    match message {
        Message::Absent => send(None),
        Message::Formatted(t) => send(Some(&format_args!("{t}"))),
        Message::Text(t) => send(Some(&t)),
        Message::Display => send(Some(&display(Point(8)))),
    }
}
fn body(m: Message) -> Option<String> {
    match m {
        Message::Absent => None,
        Message::Formatted(t) | Message::Text(t) => Some(format!("s{t:?}")),
        Message::Display => Some("s\"<8>\"".into()),
    }
}
fn place(m: &Meta) -> Vec<(String, String)> {
    let mut out = vec![];
    if cfg!(feature = "full") {
        let s = |k: &str, v: &str| (k.to_string(), format!("s{v:?}"));
        out.extend(m.module.map(|x| s("code.namespace", x)));
        if let Some(f) = m.file {
            out.push(s("code.filepath", f));
            out.push(s("code.filename", f.rsplit('/').next().unwrap()));
        }
        out.extend(m.line.map(|l| ("code.lineno".to_string(), format!("i{l}"))));
    }
    out
}
fn expected(m: &Meta, message: Message, fields: &[(&'static str, V)], around: Around) -> Expected {
    let (_, severity, text) = LEVELS[m.level];
    let mut attrs = place(m);
    attrs.extend(fields.iter().filter_map(|f| f.1.expected(f.0)));
    Expected { severity, text, target: m.target.to_string(), name: Some(m.name), body: body(message), attrs, ids: around.ids() }
}
fn base() -> Meta {
    Meta { name: "event", target: "t", level: 2, file: None, line: None, module: None, fields: vec![], span: false }
}
fn fields(r: &mut Run) {
    let vs = values();
    let keys = ["k", "l", "m", "a.b"];
    let max = r.pick(3usize, 4);
    for n in 0..=max {
        let dims: Vec<usize> = (0..n).map(|_| vs.len()).chain([keys.len()]).collect();
        product(&dims, |ix| {
            let rot = ix[n];
            let fs: Vec<(&'static str, V)> = (0..n).map(|i| (keys[(i + rot) % keys.len()], vs[ix[i]].clone())).collect();
            let message = [Message::Formatted("hello"), Message::Absent, Message::Text("text"), Message::Display][rot];
            r.case(|| format!("{message:?} {fs:?}"), |o| {
                let (p, s) = provider(Want::All);
                let d = Dispatch::new(tracing_subscriber::registry().with(OpenTelemetryTracingBridge::new(&p)));
                fire(&d, &base(), message, &fs);
                let want = expected(&base(), message, &fs, Around::Nothing);
                o.step(&want);
                judge(&s, &[want.clone()])?;
                o.outcome(&want);
                Ok(())
            });
        });
    }
}
fn events(r: &mut Run) {
    let names = ["event", "", "event src/a.rs:7"];
    let targets = ["t", "a::b", ""];
    let messages = [Message::Formatted("m"), Message::Absent];
    let wants = [Want::All, Want::Nothing, Want::Severe(5), Want::Severe(9), Want::Severe(17), Want::Target("a::b")];
    let filters = [None, Some(LevelFilter::OFF), Some(LevelFilter::ERROR), Some(LevelFilter::WARN), Some(LevelFilter::INFO), Some(LevelFilter::DEBUG), Some(LevelFilter::TRACE)];
    let places: [(Option<&'static str>, Option<u32>, Option<&'static str>); 5] = [(None, None, None), (Some("src/x/a.rs"), Some(7), Some("a::b")), (Some("a.rs"), None, None), (None, Some(u32::MAX), None), (None, None, Some("m"))];
    product(&[5, names.len(), targets.len(), messages.len(), wants.len(), filters.len(), AROUND.len(), if cfg!(feature = "full") { 5 } else { 1 }], |ix| {
        let (f, want, around, message) = (filters[ix[5]], wants[ix[4]], AROUND[ix[6]], messages[ix[3]]);
        let (file, line, module) = places[ix[7]];
        let m = Meta { level: ix[0], name: names[ix[1]], target: targets[ix[2]], file, line, module, ..base() };
        r.case(|| format!("{m:?} {message:?}, filter {f:?}, processor wants {want:?}, within {around:?}"), |o| {
            let (p, s) = provider(want);
            let layer = OpenTelemetryTracingBridge::new(&p);
            let d = match f {
                None => Dispatch::new(tracing_subscriber::registry().with(layer)),
                Some(f) => Dispatch::new(tracing_subscriber::registry().with(layer.with_filter(f))),
            };
            let _g = around.enter();
            let fs = [("k", V::I64(1))];
            fire(&d, &m, message, &fs);
            fire(&d, &m, message, &fs);
            let passes = match f {
                None => true,
                Some(f) => LEVELS[m.level].0 <= f,
            };
            let on = passes && want.wants(LEVELS[m.level].1, m.target) && !around.suppressed();
            let e = expected(&m, message, &fs, around);
            let l = if on { vec![e.clone(), e] } else { vec![] };
            o.step(&l);
            judge(&s, &l)?;
            for a in s.asked.lock().unwrap().iter() {
                ensure!(*a == (LEVELS[m.level].1, m.target.to_string(), Some(m.name.to_string())), "the processor is asked about {a:?}");
            }
            o.outcome(&l);
            Ok(())
        });
    });
}
#[cfg(feature = "full")]
mod spans {
    use super::*;
    use opentelemetry::trace::TracerProvider;
    use opentelemetry_sdk::trace::{InMemorySpanExporter, Sampler, SdkTracerProvider};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    enum Op {
        Enter,
        Exit,
        Event,
    }
    /// Events within tracing spans carry the ids under which those spans are exported.
    pub fn ids(r: &mut Run) {
        r.all_sequences(&[Op::Enter, Op::Exit, Op::Event], r.pick(8, 11), |q| format!("{q:?}"), |q, o| {
            let (p, s) = provider(Want::All);
            let ex = InMemorySpanExporter::default();
            let tp = SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOn).with_simple_exporter(ex.clone()).build();
            let d = Dispatch::new(tracing_subscriber::registry().with(tracing_opentelemetry::layer().with_tracer(tp.tracer("x"))).with(OpenTelemetryTracingBridge::new(&p)));
            // names of the open spans, and of the span of every event
            let mut open: Vec<(usize, tracing_core::span::Id)> = vec![];
            let mut made = 0;
            let mut events = vec![];
            tracing::dispatcher::with_default(&d, || {
                for op in q {
                    match op {
                        Op::Enter => {
                            const NAMES: [&str; 11] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10"];
                            let md = meta(&Meta { name: NAMES[made], span: true, ..base() });
                            let _ = d.enabled(md);
                            let vs = md.fields().value_set(&[] as &[(&Field, Option<&dyn Value>); 0]);
                            let id = d.new_span(&tracing_core::span::Attributes::new(md, &vs));
                            d.enter(&id);
                            open.push((made, id));
                            made += 1;
                        }
                        Op::Exit => {
                            if let Some((_, id)) = open.pop() {
                                d.exit(&id);
                                d.try_close(id);
                            }
                        }
                        Op::Event => {
                            fire(&d, &base(), Message::Formatted("m"), &[]);
                            events.push(open.last().map(|x| x.0));
                        }
                    }
                    o.step(&(open.len(), op));
                }
                while let Some((_, id)) = open.pop() {
                    d.exit(&id);
                    d.try_close(id);
                }
            });
            let spans = ex.get_finished_spans().unwrap();
            ensure!(spans.len() == made, "{} spans instead of {made}", spans.len());
            let want: Vec<Expected> = events
                .iter()
                .map(|e| {
                    let ids = e.map(|n| {
                        let sp = spans.iter().find(|x| x.name == n.to_string()).unwrap();
                        (u128::from_be_bytes(sp.span_context.trace_id().to_bytes()), u64::from_be_bytes(sp.span_context.span_id().to_bytes()), None)
                    });
                    Expected { ids, ..expected(&base(), Message::Formatted("m"), &[], Around::Nothing) }
                })
                .collect();
            judge(&s, &want)?;
            o.outcome(&events);
            Ok(())
        });
    }
}
/// Records of the log crate that arrive through tracing: what describes the call site is not repeated.
#[cfg(feature = "full")]
fn forwarded(r: &mut Run) {
    use crate::facade::{LEVELS, PLACES};
    let targets = ["t", "", "a::b"];
    product(&[5, targets.len(), PLACES.len(), AROUND.len()], |ix| {
        let (l, target, pl, around) = (LEVELS[ix[0]], targets[ix[1]], PLACES[ix[2]], AROUND[ix[3]]);
        r.case(|| format!("{} {target:?} at {pl:?} within {around:?}", l.2), |o| {
            let (p, s) = provider(Want::All);
            let d = Dispatch::new(tracing_subscriber::registry().with(OpenTelemetryTracingBridge::new(&p)));
            let _g = around.enter();
            tracing::dispatcher::with_default(&d, || tracing_log::format_trace(&log::Record::builder().level(l.0).target(target).args(format_args!("m{}", 1)).file(pl.file).module_path(pl.module).line(pl.line).build())).map_err(|e| e.to_string())?;
            let m = Meta { file: pl.file, line: pl.line, module: pl.module, ..base() };
            let e = Expected { severity: l.1, text: l.2, target: "log".into(), name: Some("log event"), body: Some("s\"m1\"".into()), attrs: place(&m), ids: around.ids() };
            let l = if around.suppressed() { vec![] } else { vec![e] };
            o.step(&l);
            judge(&s, &l)?;
            o.outcome(&l);
            Ok(())
        });
    });
}
pub fn families() -> Vec<Family> {
    #[allow(unused_mut)]
    let mut f = vec![family("C47", "tracing-fields", fields), family("C47", "tracing-events", events)];
    #[cfg(feature = "full")]
    f.extend([family("C47", "tracing-span-ids", spans::ids), family("C47", "tracing-forwarded-log-records", forwarded)]);
    f
}
