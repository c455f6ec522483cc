//! C54: the stdout exporters.  The layout is left open: what is compared is which of the given values
//! appear, how often, and in which order.
mod logs;
mod metrics;
mod spans;
use bmc::*;
use opentelemetry::{Array, InstrumentationScope, KeyValue, StringValue, Value};
use opentelemetry_sdk::Resource;
use std::fs::File;
use std::future::Future;
use std::io::{Read, Seek, Write};
use std::os::fd::FromRawFd;
use std::pin::pin;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, SystemTime};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
}
/// What `f` prints.
pub fn printed<T>(f: impl FnOnce() -> T) -> (T, String) {
    struct Back(i32);
    impl Drop for Back {
        fn drop(&mut self) {
            let _ = std::io::stdout().flush();
            unsafe {
                dup2(self.0, 1);
                close(self.0);
            }
        }
    }
    std::io::stdout().flush().unwrap();
    let (back, fd) = unsafe { (Back(dup(1)), memfd_create(b"out\0".as_ptr(), 0)) };
    assert!(fd >= 0);
    unsafe { dup2(fd, 1) };
    let r = f();
    drop(back);
    let mut file = unsafe { File::from_raw_fd(fd) };
    file.rewind().unwrap();
    let mut s = String::new();
    file.read_to_string(&mut s).unwrap();
    (r, s)
}
pub fn now<T>(f: impl Future<Output = T>) -> T {
    match pin!(f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("the export is not ready at once"),
    }
}

/// Values that must appear one after the other; those that nothing else in the output could be
/// mistaken for must appear exactly that often.
#[derive(Default)]
pub struct Want(pub Vec<(String, bool)>);
impl Want {
    pub fn one(&mut self, s: impl ToString) {
        self.0.push((s.to_string(), true));
    }
    pub fn any(&mut self, s: impl ToString) {
        self.0.push((s.to_string(), false));
    }
    pub fn attrs(&mut self, a: &[KeyValue]) {
        for kv in a {
            self.one(&kv.key);
            for t in tokens(&kv.value) {
                self.one(t);
            }
        }
    }
    pub fn scope(&mut self, s: &InstrumentationScope) {
        self.one(s.name());
        s.version().map(|v| self.one(v));
        s.schema_url().map(|v| self.one(v));
        self.attrs(&s.attributes().cloned().collect::<Vec<_>>());
    }
    pub fn judge(&self, out: &str) -> R {
        let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
        let find = |needle: &str, from: usize| {
            let mut p = from;
            while let Some(k) = out[p..].find(needle) {
                let (a, b) = (p + k, p + k + needle.len());
                if !word(out[..a].chars().next_back()) && !word(out[b..].chars().next()) {
                    return Some((a, b));
                }
                p = a + needle.chars().next().unwrap().len_utf8();
            }
            None
        };
        let mut at = 0;
        for (i, (n, _)) in self.0.iter().enumerate() {
            match find(n, at) {
                Some((_, e)) => at = e,
                None => return Err(Fail::from(format!("{n:?} (value {i} of {}) is not printed in its place: {out}", self.0.len()))),
            }
        }
        for (n, _) in self.0.iter().filter(|x| x.1) {
            let (mut got, mut p) = (0, 0);
            while let Some((_, e)) = find(n, p) {
                got += 1;
                p = e;
            }
            let want = self.0.iter().filter(|x| x.0 == *n).count();
            ensure!(got == want, "{n:?} is printed {got} times instead of {want}: {out}");
        }
        // nothing but the values given: every marked word of the output was asked for
        for w in out.split(|c: char| !c.is_alphanumeric()).filter(|w| w.starts_with("zq")) {
            ensure!(self.0.iter().any(|(n, _)| n.contains(w)), "{w:?} is printed, but was not given: {out}");
        }
        Ok(())
    }
}
/// The parts of a value that must be seen.
fn tokens(v: &Value) -> Vec<String> {
    match v {
        Value::Array(Array::I64(a)) => a.iter().map(|x| x.to_string()).collect(),
        Value::Array(Array::F64(a)) => a.iter().map(|x| x.to_string()).collect(),
        Value::Array(Array::Bool(a)) => a.iter().map(|x| x.to_string()).collect(),
        Value::Array(Array::String(a)) => a.iter().map(|x| x.to_string()).collect(),
        v => vec![v.as_str().to_string()],
    }
}
/// Hands out values that occur nowhere else.
#[derive(Default)]
pub struct Fresh(u64);
impl Fresh {
    pub fn word(&mut self) -> String {
        self.0 += 1;
        format!("zq{}x", self.0)
    }
    pub fn num(&mut self) -> u64 {
        self.0 += 1;
        7_000_000_000 + self.0
    }
    pub fn real(&mut self) -> f64 {
        self.num() as f64 + 0.5
    }
    pub fn time(&mut self) -> SystemTime {
        self.0 += 1;
        SystemTime::UNIX_EPOCH + Duration::from_micros(1_234_567_890_000_000 + self.0 * 1_000_003)
    }
    pub fn value(&mut self, kind: usize) -> Value {
        match kind % 5 {
            0 => Value::String(self.word().into()),
            1 => Value::I64(self.num() as i64),
            2 => Value::F64(self.real()),
            3 => Value::Array(Array::I64(vec![self.num() as i64, self.num() as i64])),
            _ => Value::Array(Array::String(vec![StringValue::from(self.word()), self.word().into()])),
        }
    }
    pub fn attrs(&mut self, n: usize) -> Vec<KeyValue> {
        (0..n).map(|k| KeyValue::new(self.word(), self.value(k))).collect()
    }
    pub fn scope(&mut self, parts: usize) -> InstrumentationScope {
        let mut b = InstrumentationScope::builder(self.word());
        if parts & 1 == 1 {
            b = b.with_version(self.word());
        }
        if parts & 2 == 2 {
            b = b.with_schema_url(self.word());
        }
        if parts & 4 == 4 {
            b = b.with_attributes(self.attrs(2));
        }
        b.build()
    }
    /// one attribute at most: the order of a resource's attributes is open
    pub fn resource(&mut self, kind: usize) -> Resource {
        let b = Resource::builder_empty();
        match kind {
            0 => b.build(),
            1 => b.with_attributes(self.attrs(1)).build(),
            _ => b.with_schema_url(self.attrs(1), self.word()).build(),
        }
    }
}
pub fn want_resource(w: &mut Want, r: &Resource) {
    r.schema_url().map(|u| w.one(u));
    w.attrs(&r.iter().map(|(k, v)| KeyValue::new(k.clone(), v.clone())).collect::<Vec<_>>());
}
/// how the exporters print a time
pub fn stamp(t: SystemTime) -> String {
    let us = t.duration_since(SystemTime::UNIX_EPOCH).unwrap().as_micros() as i64;
    let (days, rest) = (us.div_euclid(86_400_000_000), us.rem_euclid(86_400_000_000));
    // days since 1970-01-01 to a date
    let (mut y, mut d) = (1970, days);
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    while d >= 365 + leap(y) as i64 {
        d -= 365 + leap(y) as i64;
        y += 1;
    }
    let len = [31, 28 + leap(y) as i64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= len[m] {
        d -= len[m];
        m += 1;
    }
    let s = rest / 1_000_000;
    format!("{y:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:06}", m + 1, d + 1, s / 3600, s / 60 % 60, s % 60, rest % 1_000_000)
}
fn main() {
    let mut f = vec![];
    f.extend(spans::families());
    f.extend(logs::families());
    f.extend(metrics::families());
    bmc::main(f)
}
