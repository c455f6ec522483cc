//! Deviation-bounded exhaustive depth-first exploration of the schedules of a scenario, spread
//! over worker processes, plus the command line shared by all harness binaries.
use crate::mc::{self, Config, Execution, FailKind};
use ::std::boxed::Box;
use ::std::collections::{BTreeMap, BTreeSet};
use ::std::io::{BufRead, BufReader, Write};
use ::std::process::{Command, Stdio};
use ::std::string::String;
use ::std::sync::{Arc, Condvar, Mutex};
use ::std::time::{Duration, Instant};
use ::std::vec::Vec;

pub struct Scenario {
    pub name: &'static str,
    pub property: &'static str,
    /// deviation bounds of the quick and the thorough tier
    pub quick: u32,
    pub thorough: u32,
    pub cfg: Config,
    pub body: Arc<dyn Fn() -> String + Send + Sync>,
}

pub fn scenario(
    property: &'static str,
    name: &'static str,
    quick: u32,
    thorough: u32,
    body: impl Fn() -> String + Send + Sync + 'static,
) -> Scenario {
    Scenario {
        name,
        property,
        quick,
        thorough,
        cfg: Config::default(),
        body: Arc::new(body),
    }
}

impl Scenario {
    pub fn with(mut self, f: impl FnOnce(&mut Config)) -> Self {
        f(&mut self.cfg);
        self
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn plist(p: &[u8]) -> String {
    if p.is_empty() {
        return "-".into();
    }
    p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn unplist(s: &str) -> Vec<u8> {
    if s == "-" || s.is_empty() {
        return Vec::new();
    }
    s.split(',').map(|x| x.parse().unwrap()).collect()
}

/// children of an execution: every alternative at every decision beyond `from` within the bound;
/// `pruned` tells that the bound left one out
fn children(x: &Execution, from: usize, bound: u32, pruned: &mut bool) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut cost = 0u32;
    for (i, d) in x.decisions.iter().enumerate() {
        if i >= from {
            for alt in 0..d.costs.len() {
                if alt == d.chosen as usize {
                    continue;
                }
                if cost + d.costs[alt] as u32 <= bound {
                    let mut p: Vec<u8> = x.decisions[..i].iter().map(|d| d.chosen).collect();
                    p.push(alt as u8);
                    out.push(p);
                } else {
                    *pruned = true;
                }
            }
        }
        cost += d.costs[d.chosen as usize] as u32;
    }
    out
}

fn run(sc: &Scenario, prefix: &[u8], log: bool) -> Execution {
    let mut cfg = sc.cfg.clone();
    cfg.log = log;
    mc::run_once(&cfg, prefix, sc.body.clone())
}

fn fail_line(sc: &Scenario, x: &Execution) -> String {
    let f = x.failure.as_ref().unwrap();
    let choices: Vec<u8> = x.decisions.iter().map(|d| d.chosen).collect();
    format!("V\t{}\t{}\t{:?}\t{}", sc.name, plist(&choices), f.kind, f.msg.replace(['\t', '\n'], " "))
}

fn worker(scs: &[Scenario]) {
    let stdin = ::std::io::stdin();
    let mut out = ::std::io::stdout();
    let mut warm: BTreeSet<&'static str> = BTreeSet::new();
    let mut seen: BTreeMap<&'static str, BTreeSet<String>> = BTreeMap::new();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        let f: Vec<&str> = line.split(' ').collect();
        let sc = scs.iter().find(|s| s.name == f[1]).expect("scenario");
        let bound: u32 = f[2].parse().unwrap();
        let cap: usize = f[3].parse().unwrap();
        let deadline = Instant::now() + Duration::from_millis(f[4].parse().unwrap());
        let root = unplist(f[5]);
        if warm.insert(sc.name) {
            // lazily built process-wide state is created here, outside the exploration
            let x = run(sc, &[], false);
            if x.failure.is_some() {
                // deterministic failure of the default schedule: confirm it on a second run
                writeln!(out, "{}", fail_line(sc, &x)).unwrap();
                out.flush().unwrap();
                ::std::process::exit(0);
            }
        }
        let mut stack = vec![root];
        let (mut execs, mut nodes, mut steps, mut maxlen, mut maxsteps, mut threads) =
            (0usize, 0usize, 0usize, 0usize, 0usize, 0usize);
        let mut pruned = false;
        let mut newout = Vec::new();
        while let Some(p) = stack.pop() {
            let x = run(sc, &p, false);
            execs += 1;
            steps += x.steps;
            maxsteps = maxsteps.max(x.steps);
            threads = threads.max(x.threads);
            let before = if p.is_empty() {
                0
            } else {
                x.decisions.get(p.len() - 1).map(|d| d.step as usize).unwrap_or(0)
            };
            nodes += x.steps - before;
            maxlen = maxlen.max(x.decisions.len());
            if x.failure.is_none() && x.decisions.len() < p.len() {
                writeln!(out, "V\t{}\t{}\tDivergence\texecution ended before its prefix", sc.name, plist(&p)).unwrap();
                out.flush().unwrap();
                ::std::process::exit(0);
            }
            if x.failure.is_some() {
                writeln!(out, "{}", fail_line(sc, &x)).unwrap();
                out.flush().unwrap();
                ::std::process::exit(0);
            }
            let set = seen.entry(sc.name).or_default();
            if set.len() < 100_000 && !set.contains(&x.outcome) {
                set.insert(x.outcome.clone());
                newout.push(x.outcome.clone());
            }
            let mut ch = children(&x, p.len(), bound, &mut pruned);
            ch.reverse();
            stack.extend(ch);
            if execs >= cap || Instant::now() > deadline {
                break;
            }
        }
        for o in &newout {
            writeln!(out, "O\t{}", o.replace(['\n', '\t'], " ")).unwrap();
        }
        for l in &stack {
            writeln!(out, "L {}", plist(l)).unwrap();
        }
        writeln!(out, "R {execs} {nodes} {steps} {maxlen} {maxsteps} {threads} {} {}", mc::tried() as u8, pruned as u8).unwrap();
        out.flush().unwrap();
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub execs: usize,
    pub nodes: usize,
    pub steps: usize,
    pub maxlen: usize,
    pub maxsteps: usize,
    pub threads: usize,
    pub outcomes: BTreeSet<String>,
    /// the code under test looked whether a lock is held
    pub tried: bool,
    /// the bound left schedules out
    pub pruned: bool,
}

struct Shared {
    queue: Vec<Vec<u8>>,
    busy: usize,
    stats: Stats,
    violation: Option<(String, Vec<u8>, String, String)>,
    capped: bool,
    crashed: Option<String>,
}

struct WorkerProc {
    child: ::std::process::Child,
    stdin: ::std::process::ChildStdin,
    out: BufReader<::std::process::ChildStdout>,
}

fn spawn_worker() -> WorkerProc {
    let exe = ::std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .arg("worker")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("spawn worker");
    WorkerProc {
        stdin: child.stdin.take().unwrap(),
        out: BufReader::new(child.stdout.take().unwrap()),
        child,
    }
}

pub enum Verdict {
    Held { stats: Stats, completed: bool },
    Violated { choices: Vec<u8>, kind: String, msg: String },
    Error(String),
}

/// explore one scenario at one bound
fn explore(sc: &Scenario, bound: u32, workers: &mut [WorkerProc], deadline: Instant) -> Verdict {
    let sh = Arc::new((
        Mutex::new(Shared {
            queue: vec![Vec::new()],
            busy: 0,
            stats: Stats::default(),
            violation: None,
            capped: false,
            crashed: None,
        }),
        Condvar::new(),
    ));
    ::std::thread::scope(|s| {
        for w in workers.iter_mut() {
            let sh = sh.clone();
            s.spawn(move || loop {
                let unit = {
                    let mut g = sh.0.lock().unwrap();
                    loop {
                        if g.violation.is_some() || g.crashed.is_some() {
                            return;
                        }
                        if Instant::now() > deadline && !g.queue.is_empty() {
                            g.capped = true;
                            g.queue.clear();
                        }
                        if let Some(p) = {
                            // shortest prefix first: the largest subtrees are shared out first
                            let i = g
                                .queue
                                .iter()
                                .enumerate()
                                .min_by_key(|(_, p)| p.len())
                                .map(|x| x.0);
                            i.map(|i| g.queue.swap_remove(i))
                        } {
                            g.busy += 1;
                            break p;
                        }
                        if g.busy == 0 {
                            sh.1.notify_all();
                            return;
                        }
                        g = sh.1.wait(g).unwrap();
                    }
                };
                let (cap, hungry) = {
                    let g = sh.0.lock().unwrap();
                    if g.queue.len() < 64 {
                        (if g.stats.execs < 100 { 4 } else { 60 }, true)
                    } else {
                        (400, false)
                    }
                };
                let _ = hungry;
                let ms = deadline.saturating_duration_since(Instant::now()).as_millis() as u64 + 1;
                let _ = writeln!(w.stdin, "U {} {} {} {} {}", sc.name, bound, cap, ms, plist(&unit));
                let _ = w.stdin.flush();
                let mut left = Vec::new();
                let mut outs = Vec::new();
                loop {
                    let mut line = String::new();
                    let n = w.out.read_line(&mut line).unwrap_or(0);
                    let line = line.trim_end_matches('\n');
                    let mut g = sh.0.lock().unwrap();
                    if n == 0 {
                        let st = w.child.wait();
                        g.crashed = Some(format!("worker died ({st:?}) on unit {}", plist(&unit)));
                        g.busy -= 1;
                        sh.1.notify_all();
                        return;
                    }
                    if let Some(l) = line.strip_prefix("L ") {
                        left.push(unplist(l));
                    } else if let Some(o) = line.strip_prefix("O\t") {
                        outs.push(o.to_string());
                    } else if line.starts_with("V\t") {
                        let f: Vec<&str> = line.splitn(5, '\t').collect();
                        if g.violation.is_none() {
                            g.violation =
                                Some((f[1].into(), unplist(f[2]), f[3].into(), f[4].into()));
                        }
                        g.busy -= 1;
                        sh.1.notify_all();
                        return;
                    } else if let Some(r) = line.strip_prefix("R ") {
                        let v: Vec<usize> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                        g.stats.execs += v[0];
                        g.stats.nodes += v[1];
                        g.stats.steps += v[2];
                        g.stats.maxlen = g.stats.maxlen.max(v[3]);
                        g.stats.maxsteps = g.stats.maxsteps.max(v[4]);
                        g.stats.threads = g.stats.threads.max(v[5]);
                        g.stats.tried |= v[6] != 0;
                        g.stats.pruned |= v[7] != 0;
                        g.stats.outcomes.extend(outs);
                        g.queue.extend(left);
                        g.busy -= 1;
                        sh.1.notify_all();
                        break;
                    }
                }
            });
        }
    });
    let mut g = sh.0.lock().unwrap();
    if let Some((_, c, k, m)) = g.violation.take() {
        return Verdict::Violated {
            choices: c,
            kind: k,
            msg: m,
        };
    }
    if let Some(c) = g.crashed.take() {
        return Verdict::Error(c);
    }
    Verdict::Held {
        stats: g.stats.clone(),
        completed: !g.capped,
    }
}

fn replay_child(name: &str, choices: &[u8]) -> (String, String) {
    let exe = ::std::env::current_exe().unwrap();
    let o = Command::new(exe)
        .arg("exec")
        .arg(name)
        .arg(plist(choices))
        .output()
        .expect("replay");
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let verdict = s
        .lines()
        .find(|l| l.starts_with("RESULT "))
        .unwrap_or("RESULT none")
        .to_string();
    (verdict, s)
}

fn exec_one(scs: &[Scenario], name: &str, choices: &[u8]) -> i32 {
    let sc = scs.iter().find(|s| s.name == name).expect("scenario");
    // warm up lazily built process-wide state exactly as the workers do
    let w = run(sc, &[], false);
    let x = if w.failure.is_some() { run_fresh_failed(sc, w) } else { run(sc, choices, true) };
    for l in &x.log {
        println!("{l}");
    }
    match &x.failure {
        Some(f) => {
            println!("RESULT {:?}: {}", f.kind, f.msg.replace('\n', " "));
            1
        }
        None => {
            println!("OUTCOME {}", x.outcome);
            println!("RESULT ok");
            0
        }
    }
}

/// The default schedule itself fails on the warm-up run; a failed execution leaves parked threads
/// behind, so show that one instead of running a second execution.
fn run_fresh_failed(_sc: &Scenario, w: Execution) -> Execution {
    w
}

pub fn main(scs: Vec<Scenario>) {
    mc::install_panic_hook();
    let args: Vec<String> = ::std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            worker(&scs);
            0
        }
        Some("exec") => exec_one(&scs, &args[2], &unplist(&args[3])),
        Some("list") => {
            for s in &scs {
                println!("{} {} quick={} thorough={}", s.property, s.name, s.quick, s.thorough);
            }
            0
        }
        Some("replay") => {
            let t = ::std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| {
                t.lines()
                    .find_map(|l| l.strip_prefix(k))
                    .unwrap_or("")
                    .trim()
                    .to_string()
            };
            if get("release points:") == "on" {
                ::std::env::set_var(mc::RELEASE_ENV, "1");
            }
            exec_one(&scs, &get("scenario:"), &unplist(&get("choices:")))
        }
        Some("run") => {
            // run <scenario> <bound> [seconds]
            let sc = scs.iter().find(|s| s.name == args[2]).expect("scenario");
            let bound: u32 = args[3].parse().unwrap();
            let secs: u64 = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(60);
            let mut w: Vec<WorkerProc> = (0..8).map(|_| spawn_worker()).collect();
            let t0 = Instant::now();
            let v = explore(sc, bound, &mut w, t0 + Duration::from_secs(secs));
            for mut x in w {
                let _ = x.child.kill();
                let _ = x.child.wait();
            }
            match v {
                Verdict::Held { stats, completed } => {
                    println!(
                        "held completed={completed} execs={} nodes={} steps={} maxdecisions={} maxsteps={} threads={} outcomes={} wall={:?}",
                        stats.execs, stats.nodes, stats.steps, stats.maxlen, stats.maxsteps, stats.threads, stats.outcomes.len(), t0.elapsed()
                    );
                    for o in stats.outcomes.iter().take(12) {
                        println!("  outcome: {o}");
                    }
                    0
                }
                Verdict::Violated { choices, kind, msg } => {
                    println!("VIOLATED {kind} {msg}\n choices {}", plist(&choices));
                    let (v1, log) = replay_child(sc.name, &choices);
                    println!("{log}");
                    let (v2, _) = replay_child(sc.name, &choices);
                    println!("replay deterministic: {}", v1 == v2);
                    1
                }
                Verdict::Error(e) => {
                    println!("ERROR {e}");
                    2
                }
            }
        }
        Some("check") => check(&scs, &args[2..]),
        _ => {
            eprintln!("usage: check <property> <tier> <outdir> <seconds> | run <scenario> <bound> | replay <file> | list");
            2
        }
    };
    ::std::process::exit(code);
}

/// check <property> <tier> <result.json> <replay dir> <seconds>
fn check(scs: &[Scenario], a: &[String]) -> i32 {
    let (prop, tier, out, rdir) = (&a[0], &a[1], &a[2], &a[3]);
    let secs: f64 = a[4].parse().unwrap();
    let mine: Vec<&Scenario> = scs.iter().filter(|s| s.property == prop).collect();
    if mine.is_empty() {
        eprintln!("no scenario for {prop}");
        return 2;
    }
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs_f64(secs);
    let mut workers: Vec<WorkerProc> = (0..8).map(|_| spawn_worker()).collect();
    let mut rows: Vec<String> = Vec::new();
    let mut total = Stats::default();
    let mut samples: Vec<String> = Vec::new();
    let mut code = 0;
    let maxb = mine
        .iter()
        .map(|s| if tier == "quick" { s.quick } else { s.thorough })
        .max()
        .unwrap();
    // iterate the bound over all scenarios: every scenario with 0 deviations, then with 1, ...
    let mut best: BTreeMap<&'static str, (u32, Stats, bool)> = BTreeMap::new();
    let mut stop: BTreeSet<&'static str> = BTreeSet::new();
    // with time left, the thorough tier goes on beyond the requested bounds, and the quick tier
    // where that costs next to nothing; both stop where the bound leaves nothing out any more
    let extra = 6;
    let mut took: BTreeMap<&'static str, Duration> = BTreeMap::new();
    'all: for b in 0..=maxb + extra {
        // the cheap ones first, so that what they leave of their share goes to the others
        let mut order: Vec<_> = mine.iter().collect();
        order.sort_by_key(|s| took.get(s.name).copied());
        for (i, sc) in order.iter().enumerate() {
            let lim = if tier == "quick" { sc.quick } else { sc.thorough };
            if b > lim + extra || stop.contains(sc.name) {
                continue;
            }
            if b > lim && tier == "quick" && (took.get(sc.name).is_none_or(|t| *t > Duration::from_millis(150)) || t0.elapsed() > Duration::from_secs(25)) {
                continue;
            }
            // share what is left of the time between what is left to do at this bound
            let left = end.saturating_duration_since(Instant::now());
            let todo = order[i..].iter().filter(|s| !stop.contains(s.name)).count().max(1) as u32;
            let share = if b >= maxb { left / todo } else { left / 2 };
            if share < Duration::from_millis(50) {
                stop.insert(sc.name);
                continue;
            }
            let t1 = Instant::now();
            let verdict = explore(sc, b, &mut workers, t1 + share);
            took.insert(sc.name, t1.elapsed());
            match verdict {
                Verdict::Held { stats, .. } if stats.tried && !mc::release_points_on() => {
                    // start over with releases of locks as scheduling points
                    for mut w in workers {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                    }
                    ::std::env::set_var(mc::RELEASE_ENV, "1");
                    return check(scs, &[prop.clone(), tier.clone(), out.clone(), rdir.clone(), format!("{}", end.saturating_duration_since(Instant::now()).as_secs_f64())]);
                }
                Verdict::Held { stats, completed } => {
                    if completed && !stats.pruned {
                        stop.insert(sc.name);
                    }
                    let e = best.entry(sc.name).or_insert((b, Stats::default(), completed));
                    // a higher bound re-explores everything below it: keep the larger run
                    if completed || stats.execs >= e.1.execs {
                        let bb = if completed { b } else { e.0 };
                        let mut st = stats;
                        st.outcomes.extend(e.1.outcomes.iter().cloned());
                        *e = (bb, st, completed);
                    }
                    if !completed {
                        stop.insert(sc.name);
                    }
                }
                Verdict::Violated { choices, kind, msg } => {
                    let (v1, log) = replay_child(sc.name, &choices);
                    let (v2, _) = replay_child(sc.name, &choices);
                    if kind == "Divergence" || v1 != v2 || v1 == "RESULT ok" || v1 == "RESULT none" {
                        println!("ERROR: irreproducible failure in {}: {kind} {msg}; replays: {v1} / {v2}", sc.name);
                        code = 2;
                    } else {
                        let path = format!("{rdir}/{prop}-{}.replay", sc.name);
                        let _ = ::std::fs::create_dir_all(rdir);
                        let body = format!(
                            "property: {prop}\nscenario: {}\nchoices: {}\nrelease points: {}\ndeviations: {b}\nfailure: {kind}: {msg}\nbinary: {}\n--- schedule ---\n{log}",
                            sc.name, plist(&choices), if mc::release_points_on() { "on" } else { "off" }, ::std::env::current_exe().unwrap().display()
                        );
                        let _ = ::std::fs::write(&path, body);
                        println!("{}: {kind}: {msg}", sc.name);
                        println!("VIOLATION property={prop} replay={path}");
                        code = 1;
                    }
                    break 'all;
                }
                Verdict::Error(e) => {
                    println!("ERROR: {}: {e}", sc.name);
                    code = 2;
                    break 'all;
                }
            }
        }
    }
    for mut w in workers {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let mut allbounds = true;
    for sc in &mine {
        let lim = if tier == "quick" { sc.quick } else { sc.thorough };
        if let Some((b, st, completed)) = best.get(sc.name) {
            let all = *completed && !st.pruned;
            allbounds &= *b >= lim || all;
            rows.push(format!(
                "{{\"scenario\":{},\"deviation_bound_completed\":{},\"bound_requested\":{},\"capped_by_time\":{},\"all_interleavings\":{},\"schedules\":{},\"states\":{},\"transitions\":{},\"max_decisions\":{},\"max_steps\":{},\"threads\":{},\"distinct_outcomes\":{}}}",
                esc(sc.name), b, lim, !completed, all, st.execs, st.nodes, st.steps, st.maxlen, st.maxsteps, st.threads, st.outcomes.len()
            ));
            total.execs += st.execs;
            total.nodes += st.nodes;
            total.steps += st.steps;
            total.outcomes.extend(st.outcomes.iter().map(|o| format!("{}: {o}", sc.name)));
            for o in st.outcomes.iter().take(3) {
                samples.push(esc(&format!("{}: {o}", sc.name)));
            }
        }
    }
    if code != 2 {
        let j = format!(
            "{{\"release_points\":{},\"schedules\":{},\"states\":{},\"transitions\":{},\"distinct_outcomes\":{},\"exhaustive\":{},\"wall_s\":{:.3},\"scenarios\":[{}],\"samples\":[{}],\"violations\":{}}}",
            mc::release_points_on(), total.execs, total.nodes, total.steps, total.outcomes.len(), allbounds && code == 0,
            t0.elapsed().as_secs_f64(), rows.join(","), samples.join(","), code
        );
        let _ = ::std::fs::write(out, j);
        println!("{prop} {tier}: {} schedules, {} states, {} transitions, {} outcomes, {:.1}s", total.execs, total.nodes, total.steps, total.outcomes.len(), t0.elapsed().as_secs_f64());
    }
    code
}

#[allow(dead_code)]
fn unused(_: FailKind, _: Box<()>) {}
