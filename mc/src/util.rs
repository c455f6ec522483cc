//! Shared pieces: recording exporters and the history oracle for "record, export, flush, shut down"
//! systems.  All bookkeeping uses the real standard library (`mcstd::real`), so it adds no
//! scheduling points; one controlled thread runs at a time, so the event list is a total order.
use mcstd::mc;
use mcstd::real::sync::Mutex as RMutex;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// the recording call (span end / log emit) of item starts / has returned
    Rec(u32),
    RecDone(u32),
    /// the exporter was handed these items / finished with ok or error
    Exp(Vec<u32>, u64),
    ExpDone(bool),
    ExpShutdown,
    ExpShutdownDone,
    ExpResource(String),
    Flush(usize),
    FlushDone(usize, Result<(), String>),
    Shutdown(usize),
    ShutdownDone(usize, Result<(), String>),
    Note(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ExpMode {
    Ok,
    /// the n-th export (0-based) fails
    Fail(usize),
    /// every export takes this much virtual time
    Slow(u64),
    /// the first export waits until `open_gate`
    Gate,
    /// exporter shutdown fails
    FailShutdown,
}

#[derive(Default)]
pub struct RecInner {
    pub ev: Vec<Ev>,
    pub exporting: usize,
    pub exports: usize,
    pub resource: Option<String>,
    pub gate_open: bool,
    pub flushes: usize,
    /// the longest flush or shutdown, virtual nanoseconds
    pub longest: u64,
}

/// one recording "backend" shared by exporter and oracle
pub struct Rec {
    pub i: RMutex<RecInner>,
    pub mode: ExpMode,
    pub serial: bool,
}

impl mcstd::real::fmt::Debug for Rec {
    fn fmt(&self, f: &mut mcstd::real::fmt::Formatter<'_>) -> mcstd::real::fmt::Result {
        f.write_str("Rec")
    }
}

impl Rec {
    pub fn new(mode: ExpMode) -> Arc<Rec> {
        Arc::new(Rec { i: RMutex::new(RecInner::default()), mode, serial: true })
    }
    pub fn concurrent(mode: ExpMode) -> Arc<Rec> {
        Arc::new(Rec { i: RMutex::new(RecInner::default()), mode, serial: false })
    }
    pub fn push(&self, e: Ev) {
        mc::log(format!("{e:?}"));
        self.i.lock().unwrap().ev.push(e);
    }
    pub fn events(&self) -> Vec<Ev> {
        self.i.lock().unwrap().ev.clone()
    }
    pub fn open_gate(&self) {
        self.i.lock().unwrap().gate_open = true;
    }
    pub fn export(&self, ids: Vec<u32>) -> Result<(), String> {
        let n = {
            let mut g = self.i.lock().unwrap();
            if self.serial && g.exporting > 0 {
                drop(g);
                mc::violation("two exports ran at the same time on one exporter".into());
            }
            g.exporting += 1;
            g.exports += 1;
            g.exports - 1
        };
        self.push(Ev::Exp(ids, mc::now_ns()));
        mc::step("exporter.export");
        match self.mode {
            ExpMode::Slow(ms) => std::thread::sleep(Duration::from_millis(ms)),
            ExpMode::Gate if n == 0 => {
                while !self.i.lock().unwrap().gate_open {
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            _ => {}
        }
        let ok = !matches!(self.mode, ExpMode::Fail(k) if k == n);
        self.i.lock().unwrap().exporting -= 1;
        self.push(Ev::ExpDone(ok));
        if ok { Ok(()) } else { Err("export failed".into()) }
    }
    /// start of an asynchronous export; dropping the guard before `finish` means it was cancelled
    pub fn begin(self: &Arc<Self>, ids: Vec<u32>) -> Running {
        let n = {
            let mut g = self.i.lock().unwrap();
            if self.serial && g.exporting > 0 {
                drop(g);
                mc::violation("two exports ran at the same time on one exporter".into());
            }
            g.exporting += 1;
            g.exports += 1;
            g.exports - 1
        };
        self.push(Ev::Exp(ids, mc::now_ns()));
        mc::step("exporter.export");
        Running { rec: self.clone(), n, done: false }
    }
    pub fn shutdown(&self) -> Result<(), String> {
        mc::step("exporter.shutdown.call");
        if self.serial && self.i.lock().unwrap().exporting > 0 {
            mc::violation("exporter shut down while an export was running on it".into());
        }
        self.push(Ev::ExpShutdown);
        mc::step("exporter.shutdown");
        self.push(Ev::ExpShutdownDone);
        if self.mode == ExpMode::FailShutdown { Err("shutdown failed".into()) } else { Ok(()) }
    }
}

pub struct Running {
    rec: Arc<Rec>,
    n: usize,
    done: bool,
}
impl Running {
    /// how long the exporter's answer takes (virtual milliseconds), None: until the gate is opened
    pub fn wait(&self) -> Option<u64> {
        match self.rec.mode {
            ExpMode::Slow(ms) => Some(ms),
            ExpMode::Gate if self.n == 0 && !self.rec.i.lock().unwrap().gate_open => None,
            _ => Some(0),
        }
    }
    pub fn finish(mut self) -> Result<(), String> {
        let ok = !matches!(self.rec.mode, ExpMode::Fail(k) if k == self.n);
        self.done = true;
        self.rec.i.lock().unwrap().exporting -= 1;
        self.rec.push(Ev::ExpDone(ok));
        if ok { Ok(()) } else { Err("export failed".into()) }
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        if !self.done {
            self.rec.i.lock().unwrap().exporting -= 1;
            self.rec.push(Ev::ExpDone(false));
        }
    }
}

pub struct Limits {
    pub queue: usize,
    pub batch: usize,
}

/// Which recorded items were exported, in order.
pub fn exported(ev: &[Ev]) -> Vec<u32> {
    ev.iter().filter_map(|e| if let Ev::Exp(v, _) = e { Some(v.clone()) } else { None }).flatten().collect()
}

fn pos(ev: &[Ev], p: impl Fn(&Ev) -> bool) -> Option<usize> {
    ev.iter().position(p)
}

/// what the oracle is asked to decide
#[derive(Clone, Copy)]
pub struct Want {
    pub delivery: bool,
    pub flush: bool,
    pub exporter_shutdown: bool,
    /// the first flush or shutdown runs the failing export itself and must report it
    pub report: bool,
    /// calls after shutdown may report any error, not only AlreadyShutdown
    pub any_error: bool,
    /// a shutdown that timed out counts as shut down: later calls must say AlreadyShutdown
    pub sticky: bool,
}
pub const ALL: Want = Want { delivery: true, flush: true, exporter_shutdown: true, report: false, any_error: false, sticky: false };

/// The history oracle. Panics (through `violation`) with an explanation.
/// * every recorded item is exported at most once, and only after it was recorded;
/// * an item may be missing only if the queue could have been full while it was recorded, or if
///   shutdown had been called before its recording returned;
/// * no export is larger than the batch limit, none is empty, none happens after exporter shutdown
///   or after a shutdown call reported success;
/// * a flush or shutdown that reports success has handed over everything recorded before it began,
///   and reports success only if no export it waited for failed;
/// * at most one shutdown succeeds and after one succeeded, calls report AlreadyShutdown;
/// * the exporter is shut down exactly once.
pub fn judge(ev: &[Ev], lim: &Limits, w: Want) {
    let bad = |m: String| mc::violation(format!("{m}; history {ev:?}"));
    let mut seen: Vec<u32> = Vec::new();
    let first_shutdown = pos(ev, |e| matches!(e, Ev::Shutdown(_)));
    let exp_shutdown = pos(ev, |e| matches!(e, Ev::ExpShutdown));
    let shut_ok: Vec<usize> = (0..ev.len()).filter(|&i| matches!(&ev[i], Ev::ShutdownDone(_, Ok(())))).collect();
    for (i, e) in ev.iter().enumerate() {
        if let Ev::Exp(ids, _) = e {
            if ids.is_empty() {
                bad("an empty batch was exported".into());
            }
            if ids.len() > lim.batch {
                bad(format!("a batch of {} items exceeds the limit of {}", ids.len(), lim.batch));
            }
            if let Some(s) = exp_shutdown {
                if s < i {
                    bad(format!("{ids:?} exported after the exporter was shut down"));
                }
            }
            if let Some(s) = shut_ok.first() {
                if *s < i {
                    bad(format!("{ids:?} exported after shutdown had completed"));
                }
            }
            for id in ids {
                if seen.contains(id) {
                    bad(format!("item {id} was exported twice"));
                }
                match pos(ev, |e| *e == Ev::Rec(*id)) {
                    Some(p) if p < i => {}
                    _ => bad(format!("item {id} was exported but not recorded")),
                }
                seen.push(*id);
            }
        }
    }
    let when_exported = |id: u32| pos(ev, |e| matches!(e, Ev::Exp(v, _) if v.contains(&id)));
    let recs: Vec<(u32, usize, usize)> = ev
        .iter()
        .enumerate()
        .filter_map(|(i, e)| if let Ev::Rec(id) = e {
            Some((*id, i, pos(ev, |e| *e == Ev::RecDone(*id)).unwrap_or(usize::MAX)))
        } else { None })
        .collect();
    let may_drop = |id: u32| -> bool {
        let (_, s, d) = recs.iter().copied().find(|r| r.0 == id).unwrap();
        if let Some(x) = first_shutdown {
            if x < d { return true; }
        }
        // others recorded (at least begun) before this one returned and not handed to the exporter
        // before this one began
        let backlog = recs.iter().filter(|(o, os, _)| *o != id && *os < d && when_exported(*o).map(|t| t > s).unwrap_or(true)).count();
        backlog >= lim.queue
    };
    if w.delivery {
        let settled = ev.iter().any(|e| matches!(e, Ev::ShutdownDone(_, Ok(()))));
        if settled {
            for (id, _, d) in &recs {
                if *d != usize::MAX && when_exported(*id).is_none() && !may_drop(*id) {
                    bad(format!("item {id} was recorded before shutdown, the queue had room, and it was never exported"));
                }
            }
        }
    }
    if w.flush {
        for (i, e) in ev.iter().enumerate() {
            let (start, what) = match e {
                Ev::FlushDone(k, Ok(())) => (pos(ev, |e| *e == Ev::Flush(*k)).unwrap(), "force_flush"),
                Ev::ShutdownDone(k, Ok(())) => (pos(ev, |e| *e == Ev::Shutdown(*k)).unwrap(), "shutdown"),
                _ => continue,
            };
            for (id, _, d) in &recs {
                if *d < start && !may_drop(*id) {
                    match when_exported(*id) {
                        Some(t) if t < i => {}
                        _ => bad(format!("{what} reported success although item {id}, recorded before it was called, had not been exported")),
                    }
                }
            }
            // every export begun inside the call has finished when it returns
            let open = ev[..i].iter().filter(|e| matches!(e, Ev::Exp(..))).count()
                != ev[..i].iter().filter(|e| matches!(e, Ev::ExpDone(_))).count();
            if open && what == "shutdown" {
                bad("shutdown reported success while an export was still running".into());
            }
        }
        if shut_ok.len() > 1 {
            bad("two shutdown calls reported success".into());
        }
        // once a shutdown call has returned, whatever it returned, the processor stays shut down
        if let Some(s) = pos(ev, |e| matches!(e, Ev::ShutdownDone(..))) {
            for (id, start, _) in &recs {
                if *start > s && (w.sticky || shut_ok.first().map_or(false, |k| k < start)) && when_exported(*id).is_some() {
                    bad(format!("item {id} was recorded after a shutdown call had returned and was exported"));
                }
            }
            let s = &s;
            for (i, e) in ev.iter().enumerate() {
                if i < *s { continue; }
                let (k, start) = match e {
                    Ev::FlushDone(k, r) => (r, pos(ev, |e| *e == Ev::Flush(*k)).unwrap()),
                    Ev::ShutdownDone(k, r) => (r, pos(ev, |e| *e == Ev::Shutdown(*k)).unwrap()),
                    _ => continue,
                };
                if start > *s {
                    match k {
                        Err(m) if w.any_error || m.contains("AlreadyShutdown") => {}
                        // the shutdown that returned has failed or timed out
                        Err(_) if !w.sticky && shut_ok.first().map_or(true, |k| *k > start) => {}
                        o => bad(format!("a call made after a shutdown call had returned got {o:?} instead of AlreadyShutdown")),
                    }
                }
            }
        }
    }
    if w.report {
        match ev.iter().find(|e| matches!(e, Ev::FlushDone(..) | Ev::ShutdownDone(..))) {
            Some(Ev::FlushDone(_, Err(_)) | Ev::ShutdownDone(_, Err(_))) => {}
            o => bad(format!("the export a flush or shutdown waited for failed, but the call returned {o:?}")),
        }
    }
    if w.exporter_shutdown {
        let n = ev.iter().filter(|e| matches!(e, Ev::ExpShutdown)).count();
        if n > 1 {
            bad(format!("the exporter was shut down {n} times"));
        }
        if n == 0 && !shut_ok.is_empty() {
            bad("shutdown reported success but the exporter was never shut down".into());
        }
        if let (Some(s), Some(x)) = (shut_ok.first(), exp_shutdown) {
            if x > *s {
                bad("shutdown reported success before the exporter was shut down".into());
            }
        }
    }
}

/// short description of a history, used as the outcome of an execution
pub fn brief(ev: &[Ev]) -> String {
    ev.iter()
        .filter_map(|e| match e {
            Ev::Exp(v, _) => Some(format!("x{v:?}")),
            Ev::ExpDone(false) => Some("xerr".into()),
            Ev::ExpShutdown => Some("xs".into()),
            Ev::FlushDone(_, Ok(())) => Some("f+".into()),
            Ev::FlushDone(_, Err(m)) => Some(format!("f-{}", &m[..m.len().min(8)])),
            Ev::ShutdownDone(_, Ok(())) => Some("s+".into()),
            Ev::ShutdownDone(_, Err(m)) => Some(format!("s-{}", &m[..m.len().min(8)])),
            Ev::RecDone(i) => Some(format!("r{i}")),
            _ => None,
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub trait Sys: Send + Sync {
    fn rec(&self, id: u32);
    fn flush(&self) -> Result<(), String>;
    fn shutdown(&self) -> Result<(), String>;
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    /// record item
    R(u32),
    /// force_flush
    F,
    /// shutdown
    S,
    /// sleep (virtual milliseconds)
    Z(u64),
    /// everything recorded before this point (and not droppable) must have been exported by now
    Settled,
    /// let the gated exporter go on
    Open,
}

pub fn do_ops(sys: &dyn Sys, rec: &Rec, ops: &[Op]) {
    for o in ops {
        match *o {
            Op::R(id) => {
                rec.push(Ev::Rec(id));
                sys.rec(id);
                rec.push(Ev::RecDone(id));
            }
            Op::F => {
                let k = { let mut g = rec.i.lock().unwrap(); g.flushes += 1; g.flushes };
                rec.push(Ev::Flush(k));
                let t = mc::now_ns();
                let r = sys.flush();
                { let mut g = rec.i.lock().unwrap(); g.longest = g.longest.max(mc::now_ns() - t); }
                rec.push(Ev::FlushDone(k, r));
            }
            Op::S => {
                let k = { let mut g = rec.i.lock().unwrap(); g.flushes += 1; g.flushes };
                rec.push(Ev::Shutdown(k));
                let t = mc::now_ns();
                let r = sys.shutdown();
                { let mut g = rec.i.lock().unwrap(); g.longest = g.longest.max(mc::now_ns() - t); }
                rec.push(Ev::ShutdownDone(k, r));
            }
            Op::Z(ms) => std::thread::sleep(Duration::from_millis(ms)),
            Op::Settled => rec.push(Ev::Note("settled".into())),
            Op::Open => rec.open_gate(),
        }
    }
}

/// run the operation lists, the first on the calling thread and each other on its own thread
pub fn drive(sys: Arc<dyn Sys>, rec: &Arc<Rec>, threads: &[Vec<Op>], end: &[Op]) {
    let hs: Vec<_> = threads[1..]
        .iter()
        .map(|ops| {
            let (s, r, o) = (sys.clone(), rec.clone(), ops.clone());
            std::thread::spawn(move || do_ops(&*s, &r, &o))
        })
        .collect();
    do_ops(&*sys, rec, &threads[0]);
    for h in hs {
        h.join().unwrap();
    }
    do_ops(&*sys, rec, end);
    drop(sys);
}

/// `settled` marks: everything recorded before must be exported before
pub fn judge_settled(ev: &[Ev], lim: &Limits) {
    for (i, e) in ev.iter().enumerate() {
        if *e == Ev::Note("settled".into()) {
            let ids: Vec<u32> = ev[..i].iter().filter_map(|e| if let Ev::RecDone(id) = e { Some(*id) } else { None }).collect();
            let x = exported(&ev[..i]);
            if ids.len() <= lim.queue {
                for id in ids {
                    if !x.contains(&id) {
                        mc::violation(format!("item {id} was not exported although its export was due (batch full or scheduled delay elapsed); history {ev:?}"));
                    }
                }
            }
        }
    }
}
