//! Controlled scheduler: one execution of real OS threads, exactly one of which runs at a time.
//! Every scheduling or environment decision is a recorded choice, so that an execution is a pure
//! function of its choice list.
use ::std::any::Any;
use ::std::cell::Cell;
use ::std::collections::BTreeMap;
use ::std::string::String;
use ::std::sync::atomic::{AtomicBool, Ordering};
use ::std::sync::{Arc, Condvar, Mutex, MutexGuard};
use ::std::thread::Thread;
use ::std::time::Duration;
use ::std::vec::Vec;

/// What a thread is about to do; only the enabledness and the label matter.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Start,
    Step(&'static str, usize),
    /// enabled only while the mutex at this address is free
    Lock(usize),
    /// waiting in the queue of a RwLock
    WaitRead(usize),
    WaitWrite(usize),
    /// enabled only once the thread has finished
    Join(usize),
    /// enabled only after `wake(key)` or, if there is one, once the deadline fires
    Blocked(&'static str, usize),
}

struct Th {
    op: Op,
    finished: bool,
    woken: bool,
    deadline: Option<u64>,
    timed_out: bool,
    yielded: bool,
    park_token: bool,
    parker: Arc<Parker>,
    name: Option<String>,
    rng: u64,
}

struct Parker {
    go: AtomicBool,
    thread: Mutex<Option<Thread>>,
}

impl Parker {
    fn wait(&self) {
        let mut spins = 0;
        while !self.go.swap(false, Ordering::Acquire) {
            if spins < 50 {
                spins += 1;
                ::std::hint::spin_loop();
            } else {
                ::std::thread::park();
            }
        }
    }
    fn unpark(&self) {
        self.go.store(true, Ordering::Release);
        if let Some(t) = self.thread.lock().unwrap().as_ref() {
            t.unpark();
        }
    }
}

#[derive(Clone, Copy, Default)]
struct Rw {
    readers: usize,
    writer: bool,
    waiting_writers: usize,
}

/// One recorded decision.
#[derive(Clone, Debug)]
pub struct Decision {
    pub chosen: u8,
    /// cost (deviations) of every alternative; alternative 0 always costs 0
    pub costs: Vec<u8>,
    /// signature of the decision point, used to detect nondeterminism on replay
    pub sig: u64,
    /// number of scheduling steps executed before this decision
    pub step: u32,
}

#[derive(Clone, Debug)]
pub struct Config {
    /// total deviation budget in this run (only used for pruning of early timers)
    pub early_timers: bool,
    /// timers further away than this never fire early
    pub early_timer_max: Duration,
    pub horizon: usize,
    /// hash seed of this execution (HashMap order, ids)
    pub seed: u64,
    pub log: bool,
    pub allow_thread_panic: bool,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            early_timers: true,
            early_timer_max: Duration::from_secs(3600),
            horizon: 6000,
            seed: 1,
            log: false,
            allow_thread_panic: false,
        }
    }
}

struct Rt {
    cfg: Config,
    threads: Vec<Th>,
    cur: usize,
    prefix: Vec<u8>,
    decisions: Vec<Decision>,
    steps: usize,
    consecutive: usize,
    now_ns: u64,
    locked: BTreeMap<usize, usize>,
    rw: BTreeMap<usize, Rw>,
    names: BTreeMap<usize, usize>,
    log: Vec<String>,
    failure: Option<Failure>,
    done: bool,
    live: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum FailKind {
    Deadlock,
    Livelock,
    Panic,
    Divergence,
    Oracle,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub kind: FailKind,
    pub msg: String,
}

static RT: Mutex<Option<Rt>> = Mutex::new(None);
static DONE: Condvar = Condvar::new();

thread_local! {
    // usize::MAX: not a controlled thread
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_RT: Cell<bool> = const { Cell::new(false) };
}

fn rt() -> MutexGuard<'static, Option<Rt>> {
    RT.lock().unwrap_or_else(|e| e.into_inner())
}

/// id of the current controlled thread, if any
#[inline]
pub fn me() -> Option<usize> {
    let m = ME.with(|m| m.get());
    if m == usize::MAX {
        None
    } else {
        Some(m)
    }
}

#[inline]
pub fn controlled() -> bool {
    ME.with(|m| m.get()) != usize::MAX
}

enum Pick {
    Run(usize),
    Timer(usize),
}

impl Rt {
    fn enabled(&self, t: usize) -> bool {
        let th = &self.threads[t];
        if th.finished {
            return false;
        }
        match th.op {
            Op::Start | Op::Step(..) => true,
            Op::Lock(a) => !self.locked.contains_key(&a),
            Op::WaitRead(a) => {
                let s = self.rw.get(&a).copied().unwrap_or_default();
                !s.writer && (s.waiting_writers == 0 || s.readers == 0)
            }
            Op::WaitWrite(a) => {
                let s = self.rw.get(&a).copied().unwrap_or_default();
                !s.writer && s.readers == 0
            }
            Op::Join(o) => self.threads[o].finished,
            Op::Blocked(..) => th.woken,
        }
    }
    fn obj(&mut self, addr: usize) -> usize {
        let n = self.names.len();
        *self.names.entry(addr).or_insert(n)
    }
    fn op_str(&mut self, op: Op) -> String {
        match op {
            Op::Start => "start".into(),
            Op::Step(l, a) => {
                if a == 0 {
                    l.into()
                } else {
                    format!("{l}(o{})", self.obj(a))
                }
            }
            Op::Lock(a) => format!("lock(o{})", self.obj(a)),
            Op::WaitRead(a) => format!("rwlock.read-wait(o{})", self.obj(a)),
            Op::WaitWrite(a) => format!("rwlock.write-wait(o{})", self.obj(a)),
            Op::Join(t) => format!("join(t{t})"),
            Op::Blocked(l, a) => format!("{l}-wait(o{})", self.obj(a)),
        }
    }
    fn fail(&mut self, kind: FailKind, msg: String) {
        if self.failure.is_none() {
            self.failure = Some(Failure { kind, msg });
        }
        self.done = true;
        DONE.notify_all();
    }
    /// record one decision among `costs.len()` alternatives
    fn decide(&mut self, costs: Vec<u8>, sig: u64) -> usize {
        let i = self.decisions.len();
        let c = if i < self.prefix.len() {
            self.prefix[i] as usize
        } else {
            0
        };
        if c >= costs.len() {
            self.fail(
                FailKind::Divergence,
                format!("choice {c} of {} alternatives at decision {i}", costs.len()),
            );
            return 0;
        }
        self.decisions.push(Decision {
            chosen: c as u8,
            costs,
            sig,
            step: self.steps as u32,
        });
        c
    }
    fn dump_threads(&mut self) -> String {
        let mut s = String::new();
        for t in 0..self.threads.len() {
            let op = self.threads[t].op;
            let o = self.op_str(op);
            let nm = self.threads[t].name.clone().unwrap_or_default();
            let st = if self.threads[t].finished {
                "finished".to_string()
            } else if self.enabled(t) {
                format!("runnable at {o}")
            } else {
                format!("blocked at {o}")
            };
            s.push_str(&format!("t{t}[{nm}] {st}; "));
        }
        s
    }
    /// pick the next thread to run. None: execution is over (or failed).
    fn pick(&mut self, me: usize) -> Option<usize> {
        if self.done {
            return None;
        }
        if self.live == 0 {
            self.done = true;
            DONE.notify_all();
            return None;
        }
        self.steps += 1;
        if self.steps > self.cfg.horizon {
            let d = self.dump_threads();
            self.fail(
                FailKind::Livelock,
                format!("no termination within {} steps: {d}", self.cfg.horizon),
            );
            return None;
        }
        let n = self.threads.len();
        let me_enabled = self.enabled(me);
        let yielded = ::std::mem::replace(&mut self.threads[me].yielded, false);
        let mut picks: Vec<Pick> = Vec::new();
        let mut costs: Vec<u8> = Vec::new();
        let others: Vec<usize> = (0..n).filter(|&t| t != me && self.enabled(t)).collect();
        let force = me_enabled && !others.is_empty() && (yielded || self.consecutive > 400);
        if force {
            // a yield (or the fairness limit): the others first, for free; staying costs one
            for &t in &others {
                picks.push(Pick::Run(t));
                costs.push(0);
            }
            if yielded {
                picks.push(Pick::Run(me));
                costs.push(1);
            }
        } else {
            if me_enabled {
                picks.push(Pick::Run(me));
                costs.push(0);
            }
            for &t in &others {
                picks.push(Pick::Run(t));
                costs.push(if me_enabled { 1 } else { 0 });
            }
        }
        // timers
        let timed: Vec<(u64, usize)> = (0..n)
            .filter(|&t| !self.threads[t].finished && !self.enabled(t))
            .filter_map(|t| self.threads[t].deadline.map(|d| (d, t)))
            .collect();
        if picks.is_empty() {
            if timed.is_empty() {
                let d = self.dump_threads();
                self.fail(FailKind::Deadlock, format!("deadlock: {d}"));
                return None;
            }
            let first = timed.iter().map(|x| x.0).min().unwrap();
            for &(d, t) in &timed {
                if d == first {
                    picks.push(Pick::Timer(t));
                    costs.push(0);
                }
            }
        } else if self.cfg.early_timers {
            let max = self.cfg.early_timer_max.as_nanos() as u64;
            for &(d, t) in &timed {
                if d.saturating_sub(self.now_ns) <= max {
                    picks.push(Pick::Timer(t));
                    costs.push(1);
                }
            }
        }
        let c = if picks.len() > 1 {
            let mut sig = 1469598103934665603u64;
            for p in &picks {
                let v = match p {
                    Pick::Run(t) => *t as u64 * 2,
                    Pick::Timer(t) => *t as u64 * 2 + 1,
                };
                let op = match p {
                    Pick::Run(t) | Pick::Timer(t) => self.threads[*t].op,
                };
                let k = match op {
                    Op::Start => 1,
                    Op::Step(l, _) => 100 + l.len() as u64,
                    Op::Lock(_) => 2,
                    Op::WaitRead(_) => 3,
                    Op::WaitWrite(_) => 4,
                    Op::Join(_) => 5,
                    Op::Blocked(l, _) => 200 + l.len() as u64,
                };
                sig = (sig ^ (v * 1000 + k)).wrapping_mul(1099511628211);
            }
            let c = self.decide(costs, sig);
            if self.done {
                return None;
            }
            c
        } else {
            0
        };
        let t = match picks[c] {
            Pick::Run(t) => t,
            Pick::Timer(t) => {
                let d = self.threads[t].deadline.unwrap();
                if d > self.now_ns {
                    self.now_ns = d;
                }
                self.threads[t].timed_out = true;
                self.threads[t].woken = true;
                t
            }
        };
        if t == me {
            self.consecutive += 1;
        } else {
            self.consecutive = 0;
        }
        if self.cfg.log {
            let op = self.threads[t].op;
            let o = self.op_str(op);
            let tm = if self.threads[t].timed_out {
                " [timer fires]"
            } else {
                ""
            };
            let sw = if t != me { "=> " } else { "   " };
            self.log.push(format!("{sw}t{t} {o}{tm}"));
        }
        Some(t)
    }
}

/// Block this OS thread forever: the execution it belongs to is over.
fn abandon() -> ! {
    loop {
        ::std::thread::park();
    }
}

/// Hand over control: the current thread has set its `op`; returns when it is scheduled again.
fn reschedule(mut g: MutexGuard<'static, Option<Rt>>, me: usize) {
    let r = g.as_mut().expect("controlled thread outside an execution");
    match r.pick(me) {
        None => {
            drop(g);
            abandon()
        }
        Some(t) if t == me => {}
        Some(t) => {
            r.cur = t;
            let p = r.threads[t].parker.clone();
            let mine = r.threads[me].parker.clone();
            drop(g);
            p.unpark();
            mine.wait();
            let g = rt();
            if g.as_ref().map(|r| r.done).unwrap_or(true) {
                drop(g);
                abandon()
            }
        }
    }
}

/// A scheduling point before a visible operation.
#[inline]
pub fn point(label: &'static str, addr: usize) {
    if let Some(m) = me() {
        let mut g = rt();
        g.as_mut().unwrap().threads[m].op = Op::Step(label, addr);
        reschedule(g, m);
    }
}

/// A named scheduling point used by harness code (exporters etc).
pub fn step(label: &'static str) {
    point(label, 0)
}

pub fn yield_point() {
    if let Some(m) = me() {
        let mut g = rt();
        let r = g.as_mut().unwrap();
        r.threads[m].op = Op::Step("yield", 0);
        r.threads[m].yielded = true;
        // a spinning thread sees time pass
        r.now_ns += 1_000;
        reschedule(g, m);
    } else {
        ::std::thread::yield_now();
    }
}

/// Acquire the (model) mutex at `addr`; returns once this thread owns it.
pub fn lock_acquire(addr: usize) {
    let Some(m) = me() else { return };
    let mut g = rt();
    let r = g.as_mut().unwrap();
    r.threads[m].op = Op::Lock(addr);
    reschedule(g, m);
    rt().as_mut().unwrap().locked.insert(addr, m);
}

/// Releasing a lock is a scheduling point only where somebody can observe that a lock is held,
/// that is, once the code under test has been seen to use try_lock and the like.  The explorer
/// then starts over with these points switched on (`MC_RELEASE_POINTS`).
static TRIED: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);
pub fn tried() -> bool {
    TRIED.load(::std::sync::atomic::Ordering::Relaxed)
}
pub const RELEASE_ENV: &str = "MC_RELEASE_POINTS";
pub fn release_points() -> bool {
    static ON: ::std::sync::OnceLock<bool> = ::std::sync::OnceLock::new();
    *ON.get_or_init(|| ::std::env::var_os(RELEASE_ENV).is_some())
}
/// for the explorer, which may switch them on for the processes it starts
pub fn release_points_on() -> bool {
    ::std::env::var_os(RELEASE_ENV).is_some()
}
pub fn release_point(label: &'static str, addr: usize) {
    if release_points() && !::std::thread::panicking() {
        point(label, addr);
    }
}

pub fn lock_try(addr: usize) -> bool {
    let Some(m) = me() else { return true };
    TRIED.store(true, ::std::sync::atomic::Ordering::Relaxed);
    point("try_lock", addr);
    let mut g = rt();
    let r = g.as_mut().unwrap();
    if r.locked.contains_key(&addr) {
        false
    } else {
        r.locked.insert(addr, m);
        true
    }
}

pub fn lock_release(addr: usize) {
    if me().is_none() {
        return;
    }
    if let Some(r) = rt().as_mut() {
        r.locked.remove(&addr);
    }
}

pub fn rw_acquire(addr: usize, write: bool) {
    let Some(m) = me() else { return };
    point(if write { "rwlock.write" } else { "rwlock.read" }, addr);
    let mut g = rt();
    let r = g.as_mut().unwrap();
    r.threads[m].op = if write {
        Op::WaitWrite(addr)
    } else {
        Op::WaitRead(addr)
    };
    if !r.enabled(m) {
        if write {
            r.rw.entry(addr).or_default().waiting_writers += 1;
        }
        reschedule(g, m);
        g = rt();
        if write {
            g.as_mut()
                .unwrap()
                .rw
                .entry(addr)
                .or_default()
                .waiting_writers -= 1;
        }
    }
    let s = g.as_mut().unwrap().rw.entry(addr).or_default();
    if write {
        s.writer = true
    } else {
        s.readers += 1
    }
}

pub fn rw_try(addr: usize, write: bool) -> bool {
    let Some(_) = me() else { return true };
    TRIED.store(true, ::std::sync::atomic::Ordering::Relaxed);
    point("rwlock.try", addr);
    let mut g = rt();
    let s = g.as_mut().unwrap().rw.entry(addr).or_default();
    if s.writer || (write && s.readers > 0) || (!write && s.waiting_writers > 0) {
        return false;
    }
    if write {
        s.writer = true
    } else {
        s.readers += 1
    }
    true
}

pub fn rw_release(addr: usize, write: bool) {
    if me().is_none() {
        return;
    }
    if let Some(r) = rt().as_mut() {
        let s = r.rw.entry(addr).or_default();
        if write {
            s.writer = false;
        } else {
            s.readers = s.readers.saturating_sub(1);
        }
    }
}

/// Block on `key` until woken or until the timeout fires. Returns true if timed out.
/// `release` runs atomically with going to sleep (condition variables).
pub fn block_on(
    label: &'static str,
    key: usize,
    timeout: Option<Duration>,
    release: impl FnOnce(),
) -> bool {
    let m = me().expect("block_on outside a controlled thread");
    release();
    let mut g = rt();
    let r = g.as_mut().unwrap();
    let now = r.now_ns;
    let th = &mut r.threads[m];
    th.op = Op::Blocked(label, key);
    th.woken = false;
    th.timed_out = false;
    th.deadline = timeout.map(|d| now.saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64));
    reschedule(g, m);
    let mut g = rt();
    let th = &mut g.as_mut().unwrap().threads[m];
    th.deadline = None;
    th.woken = false;
    ::std::mem::replace(&mut th.timed_out, false)
}

/// Wake every thread blocked on `key`.
pub fn wake_all(key: usize) {
    if me().is_none() {
        return;
    }
    if let Some(r) = rt().as_mut() {
        for t in r.threads.iter_mut() {
            if let Op::Blocked(_, k) = t.op {
                if k == key && !t.finished {
                    t.woken = true;
                }
            }
        }
    }
}

/// Wake one thread blocked on `key` (which one is an explored choice).
pub fn wake_one(key: usize) {
    let Some(_) = me() else { return };
    let mut g = rt();
    let r = g.as_mut().unwrap();
    let w: Vec<usize> = (0..r.threads.len())
        .filter(|&t| {
            !r.threads[t].finished
                && !r.threads[t].woken
                && matches!(r.threads[t].op, Op::Blocked(_, k) if k == key)
        })
        .collect();
    if w.is_empty() {
        return;
    }
    let c = if w.len() > 1 {
        r.decide(vec![0; w.len()], 77 + w.len() as u64)
    } else {
        0
    };
    if r.done {
        drop(g);
        abandon();
    }
    r.threads[w[c]].woken = true;
}

/// Environment choice among `n` alternatives. Alternative 0 is the default; each other
/// alternative costs `cost` deviations.
pub fn choose(n: usize, cost: u8) -> usize {
    assert!(n >= 1 && n < 250);
    if n == 1 {
        return 0;
    }
    let mut g = rt();
    let Some(r) = g.as_mut() else { return 0 };
    let mut costs = vec![cost; n];
    costs[0] = 0;
    let c = r.decide(costs, 7_000 + n as u64);
    if r.done && me().is_some() {
        drop(g);
        abandon();
    }
    if r.cfg.log {
        r.log.push(format!("      choose {c} of {n}"));
    }
    c
}

pub fn park(timeout: Option<Duration>) {
    let m = me().unwrap();
    point("park", 0);
    {
        let mut g = rt();
        let th = &mut g.as_mut().unwrap().threads[m];
        if ::std::mem::replace(&mut th.park_token, false) {
            return;
        }
    }
    block_on("park", usize::MAX - m, timeout, || {});
    let mut g = rt();
    g.as_mut().unwrap().threads[m].park_token = false;
}

pub fn unpark(t: usize) {
    point("unpark", 0);
    let mut g = rt();
    if let Some(r) = g.as_mut() {
        if let Some(th) = r.threads.get_mut(t) {
            th.park_token = true;
        }
    }
    drop(g);
    wake_all(usize::MAX - t);
}

pub fn sleep(d: Duration) {
    let m = me().unwrap();
    block_on("sleep", usize::MAX / 2 - m, Some(d), || {});
}

/// virtual time in nanoseconds since the start of the execution
pub fn now_ns() -> u64 {
    rt().as_ref().map(|r| r.now_ns).unwrap_or(0)
}

/// append a line to the schedule log of this execution
pub fn log(s: String) {
    if let Some(r) = rt().as_mut() {
        if r.cfg.log {
            let t = me().unwrap_or(99);
            r.log.push(format!("      t{t}: {s}"));
        }
    }
}

/// report a violation of the property under check from anywhere in the execution
pub fn violation(msg: String) -> ! {
    {
        let mut g = rt();
        if let Some(r) = g.as_mut() {
            r.fail(FailKind::Oracle, msg.clone());
        }
    }
    if me().is_some() {
        abandon()
    }
    panic!("{msg}")
}

fn register(r: &mut Rt, name: Option<String>) -> (usize, Arc<Parker>) {
    let id = r.threads.len();
    let parker = Arc::new(Parker {
        go: AtomicBool::new(false),
        thread: Mutex::new(None),
    });
    let seed = r.cfg.seed;
    r.threads.push(Th {
        op: Op::Start,
        finished: false,
        woken: false,
        deadline: None,
        timed_out: false,
        yielded: false,
        park_token: false,
        parker: parker.clone(),
        name,
        rng: seed
            .wrapping_mul(0x9E3779B97F4A7C15)
            .wrapping_add((id as u64 + 1).wrapping_mul(0xD1B54A32D192ED03)),
    });
    r.live += 1;
    (id, parker)
}

pub struct Ticket {
    pub id: usize,
    parker: Arc<Parker>,
}

/// Register a thread about to be spawned by a controlled thread.
pub fn new_thread(name: Option<String>) -> Option<Ticket> {
    me()?;
    let mut g = rt();
    let (id, parker) = register(g.as_mut().unwrap(), name);
    Some(Ticket { id, parker })
}

/// Body wrapper run on the new OS thread.
pub fn run_thread<T>(t: Ticket, f: impl FnOnce() -> T) -> T {
    *t.parker.thread.lock().unwrap() = Some(::std::thread::current());
    ME.with(|m| m.set(t.id));
    t.parker.wait();
    if rt().as_ref().map(|r| r.done).unwrap_or(true) {
        abandon()
    }
    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
    finish(t.id, r.as_ref().err().map(|e| payload(e.as_ref())));
    match r {
        Ok(v) => v,
        Err(e) => ::std::panic::resume_unwind(e),
    }
}

pub fn payload(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<panic>".into()
    }
}

fn finish(id: usize, panicked: Option<String>) {
    ME.with(|m| m.set(usize::MAX));
    let mut g = rt();
    let Some(r) = g.as_mut() else { return };
    r.threads[id].finished = true;
    r.threads[id].op = Op::Step("finished", 0);
    r.live -= 1;
    if let Some(p) = panicked {
        if r.cfg.log {
            r.log.push(format!("      t{id} panicked: {p}"));
        }
        if id == 0 || !r.cfg.allow_thread_panic {
            let loc = String::new();
            let kind = FailKind::Panic;
            let nm = r.threads[id].name.clone().unwrap_or_default();
            r.fail(kind, format!("thread t{id}[{nm}] panicked: {p} {loc}"));
            return;
        }
    }
    if r.done {
        return;
    }
    match r.pick(id) {
        None => {}
        Some(t) => {
            r.cur = t;
            let p = r.threads[t].parker.clone();
            drop(g);
            p.unpark();
        }
    }
}

pub fn join_wait(t: usize) {
    let Some(m) = me() else { return };
    let mut g = rt();
    g.as_mut().unwrap().threads[m].op = Op::Join(t);
    reschedule(g, m);
}

pub fn is_finished(t: usize) -> bool {
    point("is_finished", 0);
    rt().as_ref().map(|r| r.threads[t].finished).unwrap_or(true)
}

/// Panic hook: a panic on a controlled thread ends the execution as a failure at once, unless the
/// scenario allows panics (then it unwinds normally).
pub fn install_panic_hook() {
    let old = ::std::panic::take_hook();
    ::std::panic::set_hook(::std::boxed::Box::new(move |info| {
        let Some(m) = me() else {
            return old(info);
        };
        let mut g = rt();
        if let Some(r) = g.as_mut() {
            let p = payload(info.payload());
            let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
            if r.cfg.log {
                r.log.push(format!("      t{m} panicked at {loc}: {p}"));
            }
            if !r.cfg.allow_thread_panic {
                let nm = r.threads[m].name.clone().unwrap_or_default();
                r.fail(
                    FailKind::Panic,
                    format!("thread t{m}[{nm}] panicked at {loc}: {p}"),
                );
                drop(g);
                abandon();
            }
        }
    }));
}

pub struct Execution {
    pub decisions: Vec<Decision>,
    pub steps: usize,
    pub threads: usize,
    pub failure: Option<Failure>,
    pub log: Vec<String>,
    pub outcome: String,
}

/// Run `body` once under the schedule `prefix` (choice 0 beyond it).
pub fn run_once(
    cfg: &Config,
    prefix: &[u8],
    body: Arc<dyn Fn() -> String + Send + Sync>,
) -> Execution {
    let parker;
    {
        let mut g = rt();
        assert!(g.is_none(), "nested execution");
        let mut r = Rt {
            cfg: cfg.clone(),
            threads: Vec::new(),
            cur: 0,
            prefix: prefix.to_vec(),
            decisions: Vec::new(),
            steps: 0,
            consecutive: 0,
            now_ns: 0,
            locked: BTreeMap::new(),
            rw: BTreeMap::new(),
            names: BTreeMap::new(),
            log: Vec::new(),
            failure: None,
            done: false,
            live: 0,
        };
        parker = register(&mut r, Some("main".into())).1;
        *g = Some(r);
    }
    let out: Arc<Mutex<String>> = Arc::new(Mutex::new(String::new()));
    let o2 = out.clone();
    let t = Ticket { id: 0, parker: parker.clone() };
    let h = ::std::thread::Builder::new()
        .spawn(move || {
            run_thread(t, move || {
                let s = body();
                *o2.lock().unwrap() = s;
            })
        })
        .expect("spawn");
    parker.unpark();
    let mut g = rt();
    // a thread that computes without end never reaches a scheduling point: give up after 20 s of
    // real time without one
    let (mut last, mut since) = (usize::MAX, ::std::time::Instant::now());
    while !g.as_ref().unwrap().done {
        g = DONE.wait_timeout(g, Duration::from_secs(1)).unwrap_or_else(|e| e.into_inner()).0;
        let r = g.as_mut().unwrap();
        let seen = r.steps + r.decisions.len();
        if seen != last {
            last = seen;
            since = ::std::time::Instant::now();
        } else if !r.done && since.elapsed() > Duration::from_secs(20) {
            r.fail(FailKind::Livelock, "a thread computes without end".into());
        }
    }
    let r = g.take().unwrap();
    drop(g);
    if r.failure.is_none() {
        let _ = h.join();
    }
    let outcome = out.lock().unwrap().clone();
    Execution {
        decisions: r.decisions,
        steps: r.steps,
        threads: r.threads.len(),
        failure: r.failure,
        log: r.log,
        outcome,
    }
}

// ---------------------------------------------------------------------------------------------
// time and randomness of controlled threads (libc symbols interposed in the harness binary)

const BASE_S: i64 = 1_800_000_000;

/// None: not a controlled thread, use the real clock
pub fn virtual_clock() -> Option<(i64, i64)> {
    let m = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if m == usize::MAX {
        return None;
    }
    let mut g = rt();
    let r = g.as_mut()?;
    r.now_ns += 1_000;
    let n = r.now_ns;
    Some((BASE_S + (n / 1_000_000_000) as i64, (n % 1_000_000_000) as i64))
}

/// None: not a controlled thread
pub fn virtual_random(buf: &mut [u8]) -> Option<()> {
    let m = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if m == usize::MAX {
        return None;
    }
    let mut g = rt();
    let r = g.as_mut()?;
    let s = &mut r.threads[m].rng;
    for b in buf.iter_mut() {
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        *b = (z ^ (z >> 31)) as u8;
    }
    Some(())
}

/// Install the libc interposers. Must be invoked once in every harness binary.
#[macro_export]
macro_rules! interpose {
    () => {
        #[repr(C)]
        pub struct McTimespec {
            s: i64,
            n: i64,
        }
        extern "C" {
            fn syscall(n: i64, ...) -> i64;
        }
        #[no_mangle]
        pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut McTimespec) -> i32 {
            match $crate::mc::virtual_clock() {
                Some((s, n)) => {
                    *ts = McTimespec { s, n };
                    0
                }
                None => syscall(228, clk as i64, ts) as i32,
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
            let sl = $crate::real::slice::from_raw_parts_mut(buf, len);
            match $crate::mc::virtual_random(sl) {
                Some(()) => len as isize,
                None => syscall(318, buf, len, flags as i64) as isize,
            }
        }
    };
}
