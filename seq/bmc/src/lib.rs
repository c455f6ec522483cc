//! Bounded exhaustive enumeration: every case of a family (every operation sequence, every input of a
//! finite alphabet) is executed on the real code and compared with a reference model.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Why a case failed. `key` names the specific input or history, for the known-findings file.
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { key: String::new(), msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { key: String::new(), msg: msg.into() }
    }
}
pub fn keyed(key: impl Into<String>, msg: impl Into<String>) -> Fail {
    Fail { key: key.into(), msg: msg.into() }
}
pub type R = Result<(), Fail>;
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::Fail::from(format!($($a)*))); } };
}
/// Compare what the code gave with what the model says.
#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $($a:tt)*) => {{
        let (g, w) = (&$got, &$want);
        if g != w { return Err($crate::Fail::from(format!("{}: got {:?}, expected {:?}", format!($($a)*), g, w))); }
    }};
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What one case records about the executions it made.
#[derive(Default)]
pub struct Obs {
    pub steps: u64,
    states: Vec<u64>,
    outcome: Option<u64>,
    text: Option<String>,
    want_text: bool,
}
impl Obs {
    /// One operation or comparison, leading to a model state.
    pub fn step<T: Hash + ?Sized>(&mut self, model_state: &T) {
        self.steps += 1;
        self.states.push(hash(model_state));
    }
    pub fn outcome<T: std::fmt::Debug>(&mut self, o: &T) {
        let s = format!("{o:?}");
        self.outcome = Some(hash(&(self.outcome, &s)));
        if self.want_text && self.text.is_none() {
            self.text = Some(s);
        }
    }
}

struct Shared {
    stop: AtomicBool,
    timed_out: AtomicBool,
    failures: Mutex<Vec<(u64, String, Fail)>>,
    known: HashSet<String>,
    known_hit: Mutex<BTreeMap<String, String>>,
    deadline: Instant,
}
/// Handed to a family; each worker thread enumerates all cases and executes its share.
pub struct Run {
    pub thorough: bool,
    shard: u64,
    shards: u64,
    next: u64,
    only: Option<u64>,
    sh: Arc<Shared>,
    cur: Arc<(AtomicU64, AtomicU64)>,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    cases: u64,
    steps: u64,
    samples: Vec<String>,
}
thread_local!(static PANIC: RefCell<Option<String>> = const { RefCell::new(None) });

impl Run {
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    /// false: stop enumerating
    pub fn go(&self) -> bool {
        !self.sh.stop.load(Relaxed)
    }
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Obs) -> R) {
        let i = self.next;
        self.next += 1;
        if let Some(o) = self.only {
            if o != i {
                return;
            }
        } else if i % self.shards != self.shard {
            return;
        }
        if self.sh.stop.load(Relaxed) {
            return;
        }
        if self.cases % 64 == 0 && Instant::now() > self.sh.deadline {
            self.sh.timed_out.store(true, Relaxed);
            self.sh.stop.store(true, Relaxed);
            return;
        }
        self.cases += 1;
        let mut o = Obs { want_text: self.samples.len() < 3, ..Default::default() };
        self.cur.0.store(i, Relaxed);
        self.cur.1.store(now_ms(), Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut o)));
        self.cur.1.store(0, Relaxed);
        self.steps += o.steps.max(1);
        if self.states.len() < 3_000_000 {
            self.states.extend(o.states.iter());
        }
        if let Some(x) = o.outcome {
            if self.outcomes.len() < 1_000_000 {
                self.outcomes.insert(x);
            }
        }
        if self.samples.len() < 3 {
            let mut s = desc();
            if let Some(t) = o.text {
                let _ = write!(s, " => {t}");
            }
            s.truncate((0..=400.min(s.len())).rev().find(|&k| s.is_char_boundary(k)).unwrap());
            self.samples.push(s);
        }
        let fail = match r {
            Ok(Ok(())) => return,
            Ok(Err(f)) => f,
            Err(_) => Fail { key: "panic".into(), msg: format!("panicked: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()) },
        };
        if !fail.key.is_empty() && self.sh.known.contains(&fail.key) {
            self.sh.known_hit.lock().unwrap().entry(fail.key.clone()).or_insert_with(|| format!("{} [{}]", fail.msg, desc()));
            return;
        }
        self.sh.failures.lock().unwrap().push((i, desc(), fail));
        self.sh.stop.store(true, Relaxed);
    }
    /// All sequences over `alphabet` of exactly length `depth` (their prefixes are checked on the way).
    pub fn sequences<T: Clone>(&mut self, alphabet: &[T], depth: usize, desc: impl Fn(&[T]) -> String, f: impl Fn(&[T], &mut Obs) -> R) {
        let n = alphabet.len();
        let mut idx = vec![0usize; depth];
        let mut seq: Vec<T> = idx.iter().map(|&i| alphabet[i].clone()).collect();
        loop {
            if !self.go() {
                return;
            }
            self.case(|| desc(&seq), |o| f(&seq, o));
            let mut k = depth;
            loop {
                if k == 0 {
                    return;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < n {
                    seq[k] = alphabet[idx[k]].clone();
                    break;
                }
                idx[k] = 0;
                seq[k] = alphabet[0].clone();
            }
        }
    }
    /// All sequences of length 0..=depth, shortest first.
    pub fn all_sequences<T: Clone>(&mut self, alphabet: &[T], depth: usize, desc: impl Fn(&[T]) -> String, f: impl Fn(&[T], &mut Obs) -> R) {
        for d in 0..=depth {
            self.sequences(alphabet, d, &desc, &f);
        }
    }
}
/// All strings over `alphabet` of length 0..=max.
pub fn strings(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = Vec::with_capacity(last.len() * alphabet.len());
        for s in &last {
            for a in alphabet {
                next.push(format!("{s}{a}"));
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
/// All subsets (as index lists, ascending) of 0..n.
pub fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}
/// All permutations of a list.
pub fn perms<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}
/// Odometer over several dimensions: calls `f` with one index per dimension.
pub fn product(dims: &[usize], mut f: impl FnMut(&[usize])) {
    if dims.iter().any(|&d| d == 0) {
        return;
    }
    let mut ix = vec![0; dims.len()];
    loop {
        f(&ix);
        let mut k = dims.len();
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            ix[k] += 1;
            if ix[k] < dims[k] {
                break;
            }
            ix[k] = 0;
        }
    }
}

pub struct Family {
    pub prop: &'static str,
    pub name: &'static str,
    pub serial: bool,
    pub run: fn(&mut Run),
}
pub fn family(prop: &'static str, name: &'static str, run: fn(&mut Run)) -> Family {
    Family { prop, name, serial: false, run }
}
/// For families that change process-wide state (environment variables, globals).
pub fn serial(prop: &'static str, name: &'static str, run: fn(&mut Run)) -> Family {
    Family { prop, name, serial: true, run }
}

fn now_ms() -> u64 {
    static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Result_ {
    cases: u64,
    steps: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    failure: Option<(u64, String, Fail)>,
    complete: bool,
    known: BTreeMap<String, String>,
}

fn run_family(f: &Family, thorough: bool, only: Option<u64>, known: &HashSet<String>, secs: f64) -> Result_ {
    let shards = if f.serial || only.is_some() { 1 } else { 8 };
    let sh = Arc::new(Shared {
        stop: AtomicBool::new(false),
        timed_out: AtomicBool::new(false),
        failures: Mutex::new(vec![]),
        known: known.clone(),
        known_hit: Mutex::new(BTreeMap::new()),
        deadline: Instant::now() + Duration::from_secs_f64(secs),
    });
    let mut curs = vec![];
    let mut hs = vec![];
    for shard in 0..shards {
        let cur = Arc::new((AtomicU64::new(0), AtomicU64::new(0)));
        curs.push(cur.clone());
        let (sh, body) = (sh.clone(), f.run);
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut r = Run {
                        thorough, shard, shards, next: 0, only, sh, cur, states: HashSet::new(), outcomes: HashSet::new(), cases: 0, steps: 0, samples: vec![],
                    };
                    body(&mut r);
                    (r.cases, r.steps, r.states, r.outcomes, r.samples)
                })
                .unwrap(),
        );
    }
    // a case that does not return within 20 s hangs
    let mut hang = None;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(2));
        for c in &curs {
            let t = c.1.load(Relaxed);
            if t != 0 && now_ms() > t + 20_000 {
                hang = Some(c.0.load(Relaxed));
            }
        }
        if hang.is_some() {
            break;
        }
    }
    let mut res = Result_ {
        cases: 0, steps: 0, states: HashSet::new(), outcomes: HashSet::new(), samples: vec![], failure: None, complete: false, known: BTreeMap::new(),
    };
    if let Some(i) = hang {
        res.failure = Some((i, "(case index only)".into(), keyed("hang", "the call did not return within 20 s")));
        return res;
    }
    for h in hs {
        match h.join() {
            Ok((c, s, st, oc, sm)) => {
                res.cases += c;
                res.steps += s;
                res.states.extend(st);
                res.outcomes.extend(oc);
                res.samples.extend(sm.into_iter().take(2));
            }
            Err(_) => {
                let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                eprintln!("harness error: enumeration of {} panicked {m}", f.name);
                std::process::exit(7);
            }
        }
    }
    let mut fails = std::mem::take(&mut *sh.failures.lock().unwrap());
    fails.sort_by_key(|x| x.0);
    res.failure = fails.into_iter().next();
    res.complete = !sh.timed_out.load(Relaxed) && res.failure.is_none();
    res.known = sh.known_hit.lock().unwrap().clone();
    res
}

/// CLI: list | run <family> [quick|thorough] [secs] | replay <file> | check <prop> <tier> <out.json> <replaydir> <secs>
pub fn main(fams: Vec<Family>) {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if std::env::var_os("BMC_PANICS").is_some() {
            eprintln!("panic: {m}{loc}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{m}{loc}")));
    }));
    now_ms();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    match arg(1).as_str() {
        "list" => {
            for f in &fams {
                println!("{} {}", f.prop, f.name);
            }
        }
        "run" => {
            for f in fams.iter().filter(|f| f.name == arg(2) || f.prop == arg(2)) {
                let t = Instant::now();
                let known = load_known(f.prop);
                let r = run_family(f, arg(3) == "thorough", None, &known, arg(4).parse().unwrap_or(600.0));
                println!(
                    "{} {}: cases={} steps={} states={} outcomes={} complete={} wall={:.1}s",
                    f.prop, f.name, r.cases, r.steps, r.states.len(), r.outcomes.len(), r.complete, t.elapsed().as_secs_f64()
                );
                for s in r.samples.iter().take(2) {
                    println!("   {s}");
                }
                for (k, v) in &r.known {
                    println!("   known {k}: {v}");
                }
                if let Some((i, d, f)) = r.failure {
                    println!("   FAIL case {i}: {d}\n        key={:?} {}", f.key, f.msg);
                }
            }
        }
        "replay" => {
            let t = std::fs::read_to_string(arg(2)).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").to_string();
            let (name, case, tier) = (get("family"), get("case").parse::<u64>().unwrap(), get("tier"));
            let f = fams.iter().find(|f| f.name == name).expect("family");
            let r = run_family(f, tier == "thorough", Some(case), &HashSet::new(), 60.0);
            match r.failure {
                Some((i, d, f)) => {
                    println!("case {i}: {d}\n  {}", f.msg);
                    std::process::exit(1)
                }
                None => println!("held"),
            }
        }
        "check" => {
            let (prop, tier, out, replays) = (arg(2), arg(3), arg(4), arg(5));
            let total: f64 = arg(6).parse().unwrap_or(50.0);
            let mine: Vec<&Family> = fams.iter().filter(|f| f.prop == prop).collect();
            if mine.is_empty() {
                eprintln!("no family for {prop}");
                std::process::exit(6);
            }
            let known = load_known(&prop);
            let t0 = Instant::now();
            let (mut cases, mut steps, mut states, mut outcomes) = (0, 0, HashSet::new(), 0usize);
            let (mut scen, mut samples, mut complete) = (String::new(), vec![], true);
            let mut code = 0;
            for (k, f) in mine.iter().enumerate() {
                let left = (total - t0.elapsed().as_secs_f64()).max(1.0);
                // later families are guaranteed a share
                let share = left - (mine.len() - 1 - k) as f64 * left / (2.0 * mine.len() as f64);
                let tf = Instant::now();
                let r = run_family(f, tier == "thorough", None, &known, share);
                cases += r.cases;
                steps += r.steps;
                outcomes += r.outcomes.len();
                complete &= r.complete;
                let ns = r.states.len();
                for s in r.states {
                    states.insert(hash(&(k, s)));
                }
                if !scen.is_empty() {
                    scen.push(',');
                }
                let _ = write!(scen, "{{\"name\":{},\"cases\":{},\"steps\":{},\"model_states\":{ns},\"outcomes\":{},\"exhaustive\":{},\"wall_s\":{:.2}}}", js(f.name), r.cases, r.steps, r.outcomes.len(), r.complete, tf.elapsed().as_secs_f64());
                samples.extend(r.samples.into_iter().take(2).map(|s| format!("{}: {s}", f.name)));
                for (key, v) in &r.known {
                    println!("KNOWN-FINDING: property={prop} {key}: {v}");
                }
                if let Some((i, d, fl)) = r.failure {
                    std::fs::create_dir_all(&replays).ok();
                    let path = format!("{replays}/{prop}-{}.replay", f.name);
                    std::fs::write(&path, format!("property: {prop}\nfamily: {}\ntier: {tier}\ncase: {i}\ninput: {}\nkey: {}\nwhat: {}\n", f.name, d.replace('\n', "\\n"), fl.key, fl.msg.replace('\n', "\\n"))).ok();
                    println!("{}: {d}: {}", f.name, fl.msg);
                    println!("VIOLATION property={prop} replay={path}");
                    code = 1;
                    break;
                }
            }
            println!("{prop} {tier}: {cases} cases, {steps} steps, {} model states, {outcomes} outcomes, exhaustive={complete}, {:.1}s", states.len(), t0.elapsed().as_secs_f64());
            let js_samples: Vec<String> = samples.iter().map(|s| js(s)).collect();
            std::fs::write(
                &out,
                format!(
                    "{{\"schedules\":{cases},\"states\":{},\"transitions\":{steps},\"distinct_outcomes\":{outcomes},\"exhaustive\":{complete},\"scenarios\":[{scen}],\"samples\":[{}]}}",
                    states.len().max(1), js_samples.join(",")
                ),
            )
            .unwrap();
            std::process::exit(code);
        }
        _ => {
            eprintln!("usage: list | run <family> [tier] [secs] | replay <file> | check <prop> <tier> <out> <replaydir> <secs>");
            std::process::exit(2)
        }
    }
}
fn load_known(prop: &str) -> HashSet<String> {
    let Ok(p) = std::env::var("KNOWN_FINDINGS") else { return HashSet::new() };
    let Ok(t) = std::fs::read_to_string(p) else { return HashSet::new() };
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("KNOWN-FINDING property={prop} key=")))
        .map(|l| l.split(" :: ").next().unwrap().trim().to_string())
        .collect()
}
