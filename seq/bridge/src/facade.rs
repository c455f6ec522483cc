//! The bridge from the log crate.
use crate::record::*;
use bmc::{ensure, family, product, Family, Run};
use log::kv::{ToValue, Value};
use log::{Level, Log, Record};
use opentelemetry_appender_log::OpenTelemetryLogBridge;

pub const LEVELS: [(Level, i32, &str); 5] = [(Level::Error, 17, "ERROR"), (Level::Warn, 13, "WARN"), (Level::Info, 9, "INFO"), (Level::Debug, 5, "DEBUG"), (Level::Trace, 1, "TRACE")];

#[derive(Clone, Debug)]
pub enum V {
    Bool(bool),
    Str(&'static str),
    I64(i64),
    U64(u64),
    I128(i128),
    U128(u128),
    F64(f64),
    Char(char),
    U8(u8),
    I32(i32),
    F32(f32),
    Debug(Vec<u8>),
    Display(Point),
    Error,
}
#[derive(Clone, Debug)]
pub struct Point(pub i32);
impl std::fmt::Display for Point {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", self.0)
    }
}
impl std::error::Error for Point {}
impl V {
    pub fn value(&self) -> Value<'_> {
        match self {
            V::Bool(x) => x.to_value(),
            V::Str(x) => x.to_value(),
            V::I64(x) => x.to_value(),
            V::U64(x) => x.to_value(),
            V::I128(x) => x.to_value(),
            V::U128(x) => x.to_value(),
            V::F64(x) => x.to_value(),
            V::Char(x) => x.to_value(),
            V::U8(x) => x.to_value(),
            V::I32(x) => x.to_value(),
            V::F32(x) => x.to_value(),
            V::Debug(x) => Value::from_debug(x),
            V::Display(x) => Value::from_display(x),
            V::Error => Value::from_dyn_error(&Point(3)),
        }
    }
    /// Integers that do not fit 64 signed bits become strings.
    pub fn expected(&self) -> String {
        let int = |x: &dyn std::fmt::Display, fits: bool| if fits { format!("i{x}") } else { format!("s\"{x}\"") };
        let d = |x: f64| format!("d{:x}", if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() });
        match self {
            V::Bool(b) => format!("b{b}"),
            V::Str(s) => format!("s{s:?}"),
            V::I64(x) => int(x, true),
            V::U64(x) => int(x, *x <= i64::MAX as u64),
            V::I128(x) => int(x, *x <= i64::MAX as i128 && *x >= i64::MIN as i128),
            V::U128(x) => int(x, *x <= i64::MAX as u128),
            V::F64(x) => d(*x),
            V::F32(x) => d(*x as f64),
            V::Char(c) => format!("s{:?}", c.to_string()),
            V::U8(x) => int(x, true),
            V::I32(x) => int(x, true),
            V::Debug(x) => format!("s{:?}", format!("{x:?}")),
            V::Display(p) => format!("s{:?}", p.to_string()),
            V::Error => "s\"<3>\"".into(),
        }
    }
}
pub fn values() -> Vec<V> {
    let m = i64::MAX;
    vec![
        V::Str("v"),
        V::Bool(true),
        V::Bool(false),
        V::Str(""),
        V::Str("h\u{e9}\"\n"),
        V::I64(0),
        V::I64(i64::MIN),
        V::I64(m),
        V::U64(0),
        V::U64(m as u64),
        V::U64(m as u64 + 1),
        V::U64(u64::MAX),
        V::I128(-1),
        V::I128(m as i128),
        V::I128(m as i128 + 1),
        V::I128(i64::MIN as i128),
        V::I128(i64::MIN as i128 - 1),
        V::I128(i128::MIN),
        V::U128(5),
        V::U128(m as u128),
        V::U128(m as u128 + 1),
        V::U128(u128::MAX),
        V::F64(1.5),
        V::F64(-0.0),
        V::F64(f64::NAN),
        V::F64(f64::INFINITY),
        V::F64(f64::MAX),
        V::F32(0.5),
        V::Char('x'),
        V::Char('\u{1F600}'),
        V::U8(255),
        V::I32(i32::MIN),
        V::Debug(vec![1, 2]),
        V::Display(Point(4)),
        V::Error,
    ]
}
/// File, module and line of a record.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Place {
    pub file: Option<&'static str>,
    pub module: Option<&'static str>,
    pub line: Option<u32>,
}
pub const PLACES: [Place; 5] = [
    Place { file: None, module: None, line: None },
    Place { file: Some("src/a.rs"), module: Some("a::b"), line: Some(7) },
    Place { file: Some(""), module: None, line: None },
    Place { file: None, module: Some("m"), line: None },
    Place { file: None, module: None, line: Some(u32::MAX) },
];
pub fn place_attrs(p: &Place) -> Vec<(String, String)> {
    let mut out = vec![];
    if cfg!(feature = "full") {
        out.extend(p.file.map(|f| ("code.file.path".to_string(), format!("s{f:?}"))));
        out.extend(p.line.map(|l| ("code.line.number".to_string(), format!("i{l}"))));
        out.extend(p.module.map(|m| ("code.function.name".to_string(), format!("s{m:?}"))));
    }
    out
}
pub struct Case<'a> {
    pub level: usize,
    pub target: &'a str,
    pub message: &'a str,
    pub kvs: Vec<(&'a str, Value<'a>)>,
    pub place: Place,
}
pub fn log(b: &dyn Log, c: &Case<'_>) {
    let go = |args: std::fmt::Arguments<'_>| b.log(&Record::builder().level(LEVELS[c.level].0).target(c.target).args(args).key_values(&c.kvs).file(c.place.file).module_path(c.place.module).line(c.place.line).build());
    // a message without arguments and one with
    if c.message == "plain" {
        go(format_args!("plain"))
    } else {
        go(format_args!("{}", c.message))
    }
}
pub fn expected(c: &Case<'_>, attrs: Vec<(String, String)>, around: Around) -> Expected {
    let (_, severity, text) = LEVELS[c.level];
    let mut all = place_attrs(&c.place);
    all.extend(attrs);
    Expected { severity, text, target: c.target.to_string(), name: None, body: Some(format!("s{:?}", c.message)), attrs: all, ids: around.ids() }
}
fn fields(r: &mut Run) {
    let vs = values();
    let keys = ["k", "l", "", "message", "k"];
    let (p, s) = provider(Want::All);
    drop(p);
    drop(s);
    let max = r.pick(3usize, 4);
    for n in 0..=max {
        let dims: Vec<usize> = (0..n).map(|_| vs.len()).chain([keys.len()]).collect();
        product(&dims, |ix| {
            let rot = ix[n];
            let kvs: Vec<(&str, &V)> = (0..n).map(|i| (keys[(i + rot) % keys.len()], &vs[ix[i]])).collect();
            r.case(|| format!("key-values {kvs:?}"), |o| {
                let (p, s) = provider(Want::All);
                let b = OpenTelemetryLogBridge::new(&p);
                let c = Case { level: rot, target: "t", message: "plain", kvs: kvs.iter().map(|(k, v)| (*k, v.value())).collect(), place: PLACES[0] };
                log(&b, &c);
                let attrs: Vec<_> = kvs.iter().map(|(k, v)| (k.to_string(), v.expected())).collect();
                let want = expected(&c, attrs, Around::Nothing);
                o.step(&want.attrs);
                judge(&s, &[want.clone()])?;
                o.outcome(&want);
                Ok(())
            });
        });
    }
}
fn headers(r: &mut Run) {
    let targets = ["t", "", "a::b", "other"];
    let messages = ["plain", "", "h\u{e9} {} \n", "formatted"];
    let wants = [Want::All, Want::Nothing, Want::Severe(1), Want::Severe(5), Want::Severe(9), Want::Severe(13), Want::Severe(17), Want::Severe(18), Want::Target("a::b"), Want::Target("")];
    product(&[5, targets.len(), messages.len(), wants.len(), AROUND.len(), PLACES.len()], |ix| {
        let (target, message, want, around) = (targets[ix[1]], messages[ix[2]], wants[ix[3]], AROUND[ix[4]]);
        r.case(|| format!("{:?} {target:?} {message:?} at {:?}, processor wants {want:?}, within {around:?}", LEVELS[ix[0]].2, PLACES[ix[5]]), |o| {
            let (p, s) = provider(want);
            let b = OpenTelemetryLogBridge::new(&p);
            let c = Case { level: ix[0], target, message, kvs: vec![("k", Value::from(1))], place: PLACES[ix[5]] };
            let on = want.wants(LEVELS[ix[0]].1, target) && !around.suppressed();
            let _g = around.enter();
            let meta = log::Metadata::builder().level(LEVELS[ix[0]].0).target(target).build();
            ensure!(b.enabled(&meta) == on, "enabled() is {}", !on);
            log(&b, &c);
            log(&b, &c);
            b.flush();
            let e = expected(&c, vec![("k".into(), "i1".into())], around);
            let l = if on { vec![e.clone(), e.clone()] } else { vec![] };
            o.step(&l);
            judge(&s, &l)?;
            for a in s.asked.lock().unwrap().iter() {
                ensure!(*a == (LEVELS[ix[0]].1, target.to_string(), None), "the processor is asked about {a:?}");
            }
            o.outcome(&l);
            Ok(())
        });
    });
}
pub fn families() -> Vec<Family> {
    vec![family("C47", "log-key-values", fields), family("C47", "log-events", headers)]
}
