//! Runs the seeds of one check in worker processes, confirms, attributes and minimises failures,
//! and writes the evidence file.
use crate::ctx::Fault;
use crate::gen;
use crate::plan::{Op, Plan, Step};
use crate::sys;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

fn verif() -> PathBuf {
    // .../verif/sim/target/<profile>/btsim
    if let Ok(v) = std::env::var("BTSIM_HOME") {
        return v.into();
    }
    let e = std::env::current_exe().unwrap();
    e.ancestors().nth(4).unwrap().to_path_buf()
}

fn binary(build: &str) -> PathBuf {
    let e = std::env::current_exe().unwrap();
    let target = e.ancestors().nth(2).unwrap();
    target.join(if build == "ship" { "ship" } else { "release" }).join("btsim")
}

struct Child {
    code: Option<i32>,
    out: String,
    timed_out: bool,
}

fn spawn(build: &str, args: &[String], limit: Duration) -> Child {
    let mut c = Command::new(binary(build))
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| harness_error(&format!("cannot start a worker: {e}")));
    let mut so = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = so.read_to_end(&mut v);
        let _ = tx.send(String::from_utf8_lossy(&v).into_owned());
    });
    let start = Instant::now();
    let mut last = None;
    let mut idle = 0;
    let mut told = false;
    loop {
        match rx.recv_timeout(Duration::from_secs(1).min(limit)) {
            Ok(out) => {
                let code = c.wait().ok().and_then(|s| s.code());
                return Child { code, out, timed_out: false };
            }
            Err(_) if start.elapsed() < limit => {
                // every thread asleep and no time used: the process waits for itself
                let now = sys::asleep(c.id());
                idle = if now.is_some() && now == last { idle + 1 } else { 0 };
                last = now;
                if idle >= 12 && !told {
                    told = true;
                    sys::tell_stuck(c.id());
                }
            }
            Err(_) => {
                let _ = c.kill();
                let _ = c.wait();
                let out = rx.recv_timeout(Duration::from_secs(5)).unwrap_or_default();
                return Child { code: None, out, timed_out: true };
            }
        }
    }
}

/// Exit status of a process in which the simulator itself panicked.
const HARNESS_PANIC: i32 = 99;

pub fn harness_error(m: &str) -> ! {
    eprintln!("HARNESS ERROR: {m}");
    println!("HARNESS ERROR: {m}");
    std::process::exit(2)
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub mine: bool,
    pub class: String,
    pub step: usize,
    pub what: String,
    pub msg: String,
    pub sched: Option<String>,
}

fn failure_in(out: &str) -> Option<Failure> {
    let mut f = None;
    for l in out.lines() {
        let mine = l.starts_with("SIMVIOLATION|");
        if mine || l.starts_with("SIMFOREIGN|") {
            let p: Vec<&str> = l.splitn(5, '|').collect();
            if p.len() == 5 {
                f = Some(Failure {
                    mine,
                    class: p[1].into(),
                    step: p[2].parse().unwrap_or(0),
                    what: p[3].into(),
                    msg: p[4].into(),
                    sched: None,
                });
            }
        }
        if let (Some(s), Some(f)) = (l.strip_prefix("SIMSCHED|"), &mut f) {
            f.sched = Some(s.to_string());
        }
    }
    f
}

fn group(class: &str) -> &str {
    match class {
        "item-integrity" | "double-drop" | "heap" | "storage-protocol" | "crash" | "forgotten-dropped" | "own"
        | "leak-item" | "leak-mem" | "store" => "memory",
        "result" | "content" | "len" | "clone" | "panic" | "unwalkable" => "behaviour",
        "shape" | "order" => "shape",
        c => c,
    }
}

static EXECS: AtomicU64 = AtomicU64::new(0);

/// Executes a plan in a fresh process.
fn exec_plan(p: &Plan, dir: &Path, verbose: bool) -> (Option<Failure>, Child) {
    let n = EXECS.fetch_add(1, SeqCst);
    let f = dir.join(format!("plan-{}-{n}.txt", std::process::id()));
    std::fs::write(&f, p.to_text()).unwrap_or_else(|e| harness_error(&format!("cannot write {f:?}: {e}")));
    let mut args = vec!["exec".to_string(), f.to_string_lossy().into_owned()];
    if verbose {
        args.push("--verbose".into());
    }
    let c = spawn(&p.build, &args, Duration::from_secs(150));
    let _ = std::fs::remove_file(&f);
    let mut fail = failure_in(&c.out);
    if fail.is_none() && !c.timed_out {
        if let Some(code) = c.code.or(Some(-1)) {
            if code != 0 && code != HARNESS_PANIC {
                // died without a report: stack exhausted, or a fault inside the report itself
                fail = Some(Failure {
                    mine: true,
                    class: "crash".into(),
                    step: 0,
                    what: "unknown".into(),
                    msg: format!("process died (exit status {:?})", c.code),
                    sched: None,
                });
            }
        }
    }
    if fail.is_none() && c.timed_out {
        fail = Some(Failure {
            mine: true,
            class: "no-progress".into(),
            step: 0,
            what: "unknown".into(),
            msg: "run does not end (threads blocked for ever)".into(),
            sched: None,
        });
    }
    (fail, c)
}

// ---- attribution ---------------------------------------------------------------------------

/// Variants of the plan from which what the property is about has been taken out. If one of them
/// still fails, the failure is not a violation of this property.
fn without_cause(prop: &str, p: &Plan, f: &Failure) -> Vec<Plan> {
    let mut base = p.clone();
    base.prop = "C00".into();
    let strip = |k: Fault| {
        let mut q = base.clone();
        for s in &mut q.steps {
            if s.fault == k {
                s.fault = Fault::None;
                s.n = 0;
            }
        }
        q
    };
    match prop {
        "C02" => vec![strip(Fault::Cmp)],
        "C03" => vec![strip(Fault::Alloc)],
        "C10" => vec![strip(Fault::Drop)],
        "C13" => vec![strip(Fault::Byz)],
        "C20" if p.threads > 0 => {
            let mut q = p.clone();
            q.threads = 0;
            q.explicit = None;
            vec![q]
        }
        "C20" => {
            // nothing nested, and a single tree
            let mut q = strip(Fault::Reent);
            q.slots = 1;
            q.steps.retain(|s| !matches!(s.op, Op::Clone | Op::Swap));
            vec![q]
        }
        "C14" if f.what != "visit" => {
            let mut q = base.clone();
            q.steps.retain(|s| s.op != Op::Visit);
            vec![q, strip(Fault::Visit)]
        }
        "C09" if f.class != "clone" => {
            let mut a = base.clone();
            a.steps.retain(|s| s.op != Op::Clone);
            let mut b = base.clone();
            for s in &mut b.steps {
                if s.op == Op::Clone {
                    s.op = Op::Swap;
                    s.fault = Fault::None;
                }
            }
            vec![a, b]
        }
        "C12" => {
            let mut q = p.clone();
            q.threads = 0;
            q.explicit = None;
            vec![q]
        }
        "C06" if group(&f.class) == "behaviour" => {
            let mut q = base.clone();
            q.storage = "box".into();
            vec![q]
        }
        _ => vec![],
    }
}

fn is_foreign(prop: &str, p: &Plan, f: &Failure, dir: &Path) -> bool {
    if prop == "C06" && group(&f.class) == "behaviour" && p.storage == "box" {
        return true; // nothing to do with the storage's choices
    }
    without_cause(prop, p, f).iter().any(|q| exec_plan(q, dir, false).0.is_some())
}

// ---- minimisation --------------------------------------------------------------------------

struct Minimiser<'a> {
    dir: &'a Path,
    best: Plan,
    fail: Failure,
    until: Instant,
    tried: u64,
}

impl Minimiser<'_> {
    fn try_plan(&mut self, q: Plan) -> bool {
        if Instant::now() > self.until || self.tried > 4000 {
            return false;
        }
        self.tried += 1;
        let (f, _) = exec_plan(&q, self.dir, false);
        match f {
            Some(f) if f.mine && group(&f.class) == group(&self.fail.class) => {
                self.best = q;
                self.fail = f;
                true
            }
            _ => false,
        }
    }

    fn cut(&mut self) {
        let k = self.fail.step + 1;
        if k < self.best.steps.len() {
            let mut q = self.best.clone();
            q.steps.truncate(k);
            self.try_plan(q);
        }
    }

    fn drop_steps(&mut self) {
        let mut size = (self.best.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < self.best.steps.len() {
                if Instant::now() > self.until {
                    return;
                }
                let mut q = self.best.clone();
                let end = (i + size).min(q.steps.len());
                q.steps.drain(i..end);
                if self.try_plan(q) {
                    any = true;
                } else {
                    i += size;
                }
            }
            if size == 1 && !any {
                return;
            }
            if size > 1 {
                size /= 2
            }
        }
    }

    fn simplify_steps(&mut self) {
        let mut i = 0;
        while i < self.best.steps.len() && Instant::now() < self.until {
            let alter = |s: &mut Minimiser, f: &dyn Fn(&mut Step)| -> bool {
                if i >= s.best.steps.len() {
                    return false;
                }
                let mut q = s.best.clone();
                f(&mut q.steps[i]);
                if q.steps[i] == s.best.steps[i] {
                    return false;
                }
                s.try_plan(q)
            };
            alter(self, &|s| {
                s.fault = Fault::None;
                s.n = 0
            });
            if matches!(self.best.steps[i].op, Op::Fill | Op::Drain) {
                while alter(self, &|s| s.b /= 2) {}
                while alter(self, &|s| s.b -= 1) {}
                alter(self, &|s| s.c %= 8);
            }
            // shorter scripts
            let mut chunk = self.best.steps.get(i).map_or(0, |s| s.script.len());
            while chunk > 0 {
                let mut at = 0;
                while i < self.best.steps.len() && at < self.best.steps[i].script.len() {
                    let ok = alter(self, &|s| {
                        let e = (at + chunk).min(s.script.len());
                        s.script.drain(at..e);
                    });
                    if !ok {
                        at += chunk
                    }
                }
                chunk /= 2;
            }
            if self.best.steps[i].fault != Fault::None && self.best.steps[i].fault != Fault::Byz {
                while alter(self, &|s| s.n = s.n.saturating_sub(1).max(1)) {}
            }
            alter(self, &|s| s.a = 0);
            alter(self, &|s| s.c = 0);
            alter(self, &|s| s.b = s.b.min(1));
            alter(self, &|s| s.b = 0);
            i += 1;
        }
    }

    fn simplify_config(&mut self) {
        let mut q = self.best.clone();
        q.pad = 0;
        self.try_plan(q);
        while self.best.slots > 1 {
            let mut q = self.best.clone();
            q.slots -= 1;
            if !self.try_plan(q) {
                break;
            }
        }
        if self.best.storage == "sim" {
            let plain = crate::ctx::StoragePolicy { reuse: 3, reloc: 0, dropper: true, base: 0, stride: 1 };
            let mut q = self.best.clone();
            q.policy = Some(plain);
            if !self.try_plan(q) {
                for reuse in 0..3 {
                    for dropper in [true, false] {
                        let mut q = self.best.clone();
                        q.policy = Some(crate::ctx::StoragePolicy { reuse, dropper, ..plain });
                        if self.try_plan(q) {
                            return;
                        }
                    }
                }
            }
        }
    }

    /// Turns the seeded schedule into the list of switches it made, and drops as many as possible.
    fn schedule(&mut self) {
        if self.best.threads == 0 {
            return;
        }
        let parse = |s: &str| -> Vec<(u64, usize)> {
            s.split(',').filter_map(|x| x.split_once(':')).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect()
        };
        let Some(s) = self.fail.sched.clone() else { return };
        let mut q = self.best.clone();
        q.explicit = Some(parse(&s));
        if !self.try_plan(q) {
            return;
        }
        let mut size = self.best.explicit.as_ref().unwrap().len().max(1);
        loop {
            let mut i = 0;
            while i < self.best.explicit.as_ref().unwrap().len() && Instant::now() < self.until {
                let mut q = self.best.clone();
                let v = q.explicit.as_mut().unwrap();
                let e = (i + size).min(v.len());
                v.drain(i..e);
                if !self.try_plan(q) {
                    i += size
                }
            }
            if size == 1 {
                return;
            }
            size /= 2;
        }
    }

    fn run(&mut self) {
        self.cut();
        for _ in 0..3 {
            let before = self.best.to_text();
            self.drop_steps();
            self.simplify_config();
            self.simplify_steps();
            self.drop_steps();
            if self.best.to_text() == before || Instant::now() > self.until {
                break;
            }
        }
        self.schedule();
    }
}

// ---- the check ---------------------------------------------------------------------------------

#[derive(Default)]
struct Sum {
    n: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    storage: BTreeMap<String, u64>,
    digests: HashSet<u64>,
    nontrivial: HashSet<u64>,
    states: HashSet<u64>,
    max: [f64; 5],
    work: BTreeMap<String, f64>,
    builds: HashMap<String, u64>,
}

impl Sum {
    fn absorb(&mut self, out: &str, build: &str) {
        for l in out.lines() {
            let f: Vec<&str> = l.split('|').collect();
            match f[0] {
                "N" | "O" | "F" | "P" | "T" if f.len() == 3 => {
                    let m = match f[0] {
                        "N" => &mut self.n,
                        "O" => &mut self.ops,
                        "F" => &mut self.faults,
                        "P" => &mut self.probes,
                        _ => &mut self.storage,
                    };
                    let v: u64 = f[2].parse().unwrap_or(0);
                    *m.entry(f[1].to_string()).or_insert(0) += v;
                    if f[0] == "N" && f[1] == "runs" {
                        *self.builds.entry(build.to_string()).or_insert(0) += v;
                    }
                }
                "X" if f.len() == 6 => {
                    for i in 0..5 {
                        self.max[i] = self.max[i].max(f[i + 1].parse().unwrap_or(0.0))
                    }
                }
                "W" if f.len() == 3 => {
                    let e = self.work.entry(f[1].to_string()).or_insert(0.0);
                    *e = e.max(f[2].parse().unwrap_or(0.0));
                }
                "D" if f.len() == 3 => {
                    if let Ok(d) = u64::from_str_radix(f[1], 16) {
                        self.digests.insert(d);
                        if f[2] == "1" {
                            self.nontrivial.insert(d);
                        }
                    }
                }
                "S" if f.len() == 2 => {
                    if self.states.len() < 30_000_000 {
                        if let Ok(d) = u64::from_str_radix(f[1], 16) {
                            self.states.insert(d);
                        }
                    }
                }
                _ => (),
            }
        }
    }
}

struct Chunk {
    from: u64,
    to: u64,
}

struct Candidate {
    run: u64,
    fail: Failure,
}

pub fn build_of(prop: &str, run: u64) -> &'static str {
    // the validator exists in one of the builds only
    if run % 2 == 0 || prop == "C21" {
        "checked"
    } else {
        "ship"
    }
}

/// Number of runs and wall limit of a check.
fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let quick = match prop {
        "C16" => 20_000,
        "C22" => 40_000,
        "C11" | "C17" | "C21" => 60_000,
        "C12" | "C13" | "C15" | "C20" => 120_000,
        _ => 200_000,
    };
    if thorough {
        (quick * 20, 3000)
    } else {
        (quick, 240)
    }
}

pub fn check(prop: &str) -> i32 {
    sys::no_randomisation();
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let (mut runs, mut wall) = budget(prop, thorough);
    if let Some(x) = std::env::var("BTSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = x;
    }
    if let Some(x) = std::env::var("BTSIM_WALL").ok().and_then(|s| s.parse().ok()) {
        wall = x;
    }
    let jobs: usize = std::env::var("BTSIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4)
    });
    println!("btsim: property {prop}, tier {tier}, VERIF_SEED={seed}, {runs} runs, {jobs} workers");
    let home = verif();
    let dir = home.join("work").join(format!("{prop}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::create_dir_all(home.join("evidence"));
    let _ = std::fs::create_dir_all(home.join("replays"));

    let csize = 400u64;
    let mut next = 0u64;
    let queue: Mutex<Vec<Chunk>> = Mutex::new(vec![]);
    {
        let mut q = queue.lock().unwrap();
        let mut v = vec![];
        while next < runs {
            // even runs and odd runs separately: one build each
            let to = (next + 2 * csize).min(runs);
            v.push(Chunk { from: next, to });
            v.push(Chunk { from: next + 1, to });
            next = to;
        }
        v.reverse();
        *q = v;
    }
    let sum = Mutex::new(Sum::default());
    let mut foreign_hard = 0u64;
    let mut unconfirmed = 0u64;
    let mut capped = false;
    let mut rejected = 0u64;
    let mut verdict: Option<(Candidate, Plan, Failure)> = None;
    let harness_panic: Mutex<Option<String>> = Mutex::new(None);

    // search until everything is explored or a violation is established
    'outer: loop {
        let stop = AtomicBool::new(false);
        let found: Mutex<Vec<Candidate>> = Mutex::new(vec![]);
        let fh = AtomicU64::new(0);
        let hp = &harness_panic;
        let uc = AtomicU64::new(0);
        let late = AtomicBool::new(false);
        std::thread::scope(|s| {
            for _ in 0..jobs {
                s.spawn(|| loop {
                    if stop.load(SeqCst) {
                        return;
                    }
                    if t0.elapsed().as_secs() > wall {
                        late.store(true, SeqCst);
                        return;
                    }
                    let Some(c) = queue.lock().unwrap().pop() else { return };
                    let build = build_of(prop, c.from);
                    let mk = |from: u64, to: u64, trace: bool| {
                        let mut a: Vec<String> = ["worker", "--prop", prop, "--seed"].iter().map(|s| s.to_string()).collect();
                        a.push(seed.to_string());
                        a.extend(["--from".into(), from.to_string(), "--to".into(), to.to_string(), "--step".into(), "2".into()]);
                        if thorough {
                            a.push("--thorough".into())
                        }
                        if trace {
                            a.push("--trace".into())
                        }
                        a
                    };
                    let mut r = spawn(build, &mk(c.from, c.to, false), Duration::from_secs(300));
                    let complete = |r: &Child| r.out.ends_with("END\n");
                    if !complete(&r) {
                        // died without a report: find out where, if it does so again
                        r = spawn(build, &mk(c.from, c.to, true), Duration::from_secs(300));
                    }
                    let at: Option<u64> = r.out.lines().rev().find_map(|l| l.strip_prefix("AT|").and_then(|x| x.parse().ok()));
                    sum.lock().unwrap().absorb(&r.out, build);
                    match (r.code, failure_in(&r.out)) {
                        (Some(0), _) if complete(&r) => (),
                        (Some(HARNESS_PANIC), _) => {
                            let m = r.out.lines().find_map(|l| l.strip_prefix("HARNESS|")).unwrap_or("no message");
                            let at = at.unwrap_or(c.from);
                            *hp.lock().unwrap() = Some(format!("run {at}: {m}"));
                            queue.lock().unwrap().push(Chunk { from: at + 2, to: c.to });
                        }
                        (_, Some(f)) if at.is_some() => {
                            let at = at.unwrap();
                            queue.lock().unwrap().push(Chunk { from: at + 2, to: c.to });
                            if f.mine {
                                found.lock().unwrap().push(Candidate { run: at, fail: f });
                                stop.store(true, SeqCst);
                            } else {
                                fh.fetch_add(1, SeqCst);
                            }
                        }
                        _ => match at {
                            Some(at) => {
                                queue.lock().unwrap().push(Chunk { from: at + 2, to: c.to });
                                let f = Failure {
                                    mine: true,
                                    class: if r.timed_out { "no-progress" } else { "crash" }.into(),
                                    step: 0,
                                    what: "unknown".into(),
                                    msg: "worker died".into(),
                                    sched: None,
                                };
                                found.lock().unwrap().push(Candidate { run: at, fail: f });
                                stop.store(true, SeqCst);
                            }
                            None => {
                                uc.fetch_add(1, SeqCst);
                                if uc.load(SeqCst) > 20 {
                                    harness_error("workers keep dying");
                                }
                            }
                        },
                    }
                });
            }
        });
        foreign_hard += fh.load(SeqCst);
        unconfirmed += uc.load(SeqCst);
        capped |= late.load(SeqCst);
        let mut cands = found.into_inner().unwrap();
        if cands.is_empty() {
            break;
        }
        cands.sort_by_key(|c| c.run);
        for c in cands {
            let p = gen::plan(prop, gen::seed_of(seed, prop, c.run), build_of(prop, c.run), thorough);
            let (f, _) = exec_plan(&p, &dir, false);
            let Some(f) = f else {
                unconfirmed += 1;
                println!("note: run {} failed in a worker ({}: {}) but not alone; ignored", c.run, c.fail.class, c.fail.msg);
                continue;
            };
            if !f.mine {
                foreign_hard += 1;
                continue;
            }
            if f.class == "crash" && f.what == "unknown" && !matches!(prop, "C01" | "C06" | "C12") {
                // nothing is known about the point of failure
                foreign_hard += 1;
                continue;
            }
            if is_foreign(prop, &p, &f, &dir) {
                rejected += 1;
                continue;
            }
            let mut m = Minimiser { dir: &dir, best: p, fail: f, until: Instant::now() + Duration::from_secs(60), tried: 0 };
            m.run();
            let (best, fail) = (m.best, m.fail);
            if is_foreign(prop, &best, &fail, &dir) {
                rejected += 1;
                continue;
            }
            println!("minimised to {} steps in {} executions", best.steps.len(), m.tried);
            verdict = Some((c, best, fail));
            break 'outer;
        }
        if rejected + foreign_hard > 3000 || rejected > 400 || t0.elapsed().as_secs() > wall {
            capped = true;
            break;
        }
    }

    let mut code = 0;
    if let Some((c, best, fail)) = &verdict {
        let path = home.join("replays").join(format!("{prop}-seed{seed}-run{}.txt", c.run));
        let mut text = format!(
            "# {prop} violated: [{}] {}\n# at step {} ({}); found by VERIF_SEED={seed} tier {tier} run {} ({} build)\n# replay: ./run.sh replay {}\n",
            fail.class, fail.msg, fail.step, fail.what, c.run, best.build, path.display()
        );
        text += &best.to_text();
        let _ = std::fs::write(&path, text);
        let (again, _) = exec_plan(best, &dir, false);
        println!("violation: [{}] {} (step {}, {})", fail.class, fail.msg, fail.step, fail.what);
        println!("replayed in a fresh process: {}", if again.is_some() { "fails again" } else { "NOT reproduced" });
        println!("VIOLATION property={prop} replay={}", path.display());
        code = 1;
    }
    let s = sum.into_inner().unwrap();
    let total = s.n.get("runs").copied().unwrap_or(0);
    if let (0, Some(m)) = (code, harness_panic.into_inner().unwrap()) {
        harness_error(&format!("the simulator panicked: {m}"));
    }
    if code == 0 && total == 0 {
        harness_error("no run completed");
    }
    evidence(&home, prop, tier, seed, t0, &s, code, capped, foreign_hard, rejected, unconfirmed, thorough, jobs);
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{prop}: {} runs, {} calls, {} distinct executions, {} distinct tree states, {:.1}s, {}",
        total,
        s.n.get("calls").copied().unwrap_or(0),
        s.digests.len(),
        s.states.len(),
        t0.elapsed().as_secs_f64(),
        if code == 0 { "no violation" } else { "VIOLATED" }
    );
    if foreign_hard + rejected + s.n.get("foreign").copied().unwrap_or(0) > 0 {
        println!(
            "note: {} failures seen that concern other properties' checks",
            foreign_hard + rejected + s.n.get("foreign").copied().unwrap_or(0)
        );
    }
    code
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => (),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn obj(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
    format!("{{{}}}", v.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    home: &Path, prop: &str, tier: &str, seed: u64, t0: Instant, s: &Sum, code: i32, capped: bool,
    foreign_hard: u64, rejected: u64, unconfirmed: u64, thorough: bool, jobs: usize,
) {
    let wall = t0.elapsed().as_secs_f64();
    let n = |k: &str| s.n.get(k).copied().unwrap_or(0);
    let runs = n("runs");
    let mut samples = vec![];
    for i in [0u64, 1] {
        let p = gen::plan(prop, gen::seed_of(seed, prop, i), build_of(prop, i), thorough);
        let t = p.to_text();
        let lines: Vec<&str> = t.lines().take(30).collect();
        samples.push(esc(&format!("run {i} ({} steps):\n{}", p.steps.len(), lines.join("\n"))));
    }
    let builds: BTreeMap<String, u64> = s.builds.iter().map(|(k, v)| (k.clone(), *v)).collect();
    let need = match prop {
        "C02" => "at least one comparison panicked inside the library",
        "C03" => "at least one allocation was refused inside the library",
        "C09" => "at least one tree was cloned",
        "C10" => "at least one item destructor panicked inside the library",
        "C11" => "at least one export was made",
        "C12" => "at least one switch between threads happened inside a read phase",
        "C20" => "at least one callback made calls of its own, or threads were switched in the middle of calls",
        "C16" => "at least one map was run, with at least five calls",
        "C17" => "at least one tree of two items or more had cursors walked over a node",
        "C22" => "at least one node was edited, with at least five calls",
        "C21" => "at least one copy of the tree was really damaged",
        "C13" => "at least one comparison was answered wrongly",
        "C14" => "at least one visit was made",
        _ => "the tree held at least two items",
    };
    let j = format!(
        r#"{{
 "property": "{prop}",
 "tier": "{tier}",
 "seed": {seed},
 "level": "exploration",
 "wall_s": {wall:.2},
 "violations": {viol},
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {dn},
  "rule": {rule},
  "samples": [{samples}],
  "exhaustive": false,
  "simulated_runs_per_hour": {rph},
  "seeds_per_hour": {rph},
  "simulated_time": {{"unit": "the code has no clock; simulated time is counted in steps and events", "operations": {steps}, "library_calls": {calls}, "logged_events": {events}}},
  "faults_injected": {faults},
  "operations": {ops},
  "probes_hit": {probes},
  "distinct_executions": {de},
  "distinct_executions_measure": "digest of the run's event log (allocations, releases, destructions, comparisons and node accesses per call, results, faults, thread switches)",
  "distinct_states": {ds},
  "distinct_states_measure": "hash of (items per node in preorder, last operation, fault fired)",
  "scheduler": {{"yield_points": {yields}, "thread_switches": {switches}}},
  "largest_tree": {{"items": {mlen}, "levels": {mh}}},
  "most_work_seen": {{"comparisons_per_level": {mc:.2}, "node_accesses_per_level": {ms:.2}, "node_accesses_per_item_iterated": {mi:.2}, "node_accesses_by_operation": {{{work}}}}},
  "configurations": {storage},
  "builds": {builds},
  "real_components": "all of raw-btree (src/lib.rs, storage.rs incl. BoxStorage, balancing.rs, node/, utils/), std allocator underneath, real OS threads",
  "stub_components": "node storage in 'sim' runs (SimStorage implements the public Storage trait; BoxStorage is used in 'box' runs), item type and comparison function (instrumented), io::Write targets, visitor closures, thread scheduler, guarded heap around the system allocator",
  "workers": {jobs},
  "stopped_early_by_wall_limit": {capped},
  "failures_belonging_to_other_properties": {foreign},
  "unconfirmed_worker_deaths": {unconfirmed}
 }},
 "assumptions": [
  "seeded sampling: runs not generated are not covered",
  "item types whose comparison, clone and destructor do what the instrumented item does; storages that honour the Storage contract",
  "threads interleave at comparisons, node accesses (sim storage), item copies, visitor calls and iterator steps, under sequential consistency"
 ]
}}
"#,
        viol = code,
        dn = s.nontrivial.len(),
        rule = esc(&format!(
            "each run is generated from mix(VERIF_SEED, property, run index): storage behaviour, sizes, operation mix, faults and schedule are all drawn from it; a run counts as non-trivial if it made at least 5 library calls and {need}; runs are distinct if their event logs differ"
        )),
        samples = samples.join(", "),
        work = s.work.iter().map(|(k, v)| format!("{}: {v:.2}", esc(k))).collect::<Vec<_>>().join(", "),
        rph = (runs as f64 / wall.max(0.001) * 3600.0) as u64,
        steps = n("steps"),
        calls = n("calls"),
        events = n("events"),
        faults = obj(&s.faults),
        ops = obj(&s.ops),
        probes = obj(&s.probes),
        de = s.digests.len(),
        ds = s.states.len(),
        yields = n("yields"),
        switches = n("switches"),
        mlen = s.max[1] as u64,
        mh = s.max[0] as u64,
        mc = s.max[2],
        ms = s.max[3],
        mi = s.max[4],
        storage = obj(&s.storage),
        builds = obj(&builds),
        foreign = foreign_hard + rejected + n("foreign"),
    );
    let f = home.join("evidence").join(format!("{prop}.json"));
    if let Err(e) = std::fs::write(&f, j) {
        harness_error(&format!("cannot write {f:?}: {e}"));
    }
}

pub fn replay(file: &str) -> i32 {
    sys::no_randomisation();
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| harness_error(&format!("{file}: {e}")));
    let p = Plan::parse(&text).unwrap_or_else(|e| harness_error(&e));
    let dir = verif().join("work").join(format!("replay-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let (f, c) = exec_plan(&p, &dir, true);
    let _ = std::fs::remove_dir_all(&dir);
    for l in c.out.lines() {
        if !l.starts_with("AT|") {
            println!("{l}");
        }
    }
    match f {
        Some(f) if f.mine => {
            println!("reproduced: [{}] {} (step {}, {})", f.class, f.msg, f.step, f.what);
            println!("VIOLATION property={} replay={file}", p.prop);
            1
        }
        Some(f) => {
            println!("fails, but in a way that concerns another property: [{}] {}", f.class, f.msg);
            0
        }
        None => {
            println!("not reproduced: the run completes");
            0
        }
    }
}

/// Determinism: the same seeds, run in different processes, chunkings and orders, must give the
/// same event logs.
pub fn selftest(args: &[String]) -> i32 {
    sys::no_randomisation();
    let runs: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(400);
    let mut bad = 0;
    let mut total = 0;
    for k in (1..=17).chain([20, 21, 22]) {
        let prop = format!("C{k:02}");
        let collect = |chunk: u64, jobs: usize| -> HashMap<u64, String> {
            let q: Mutex<Vec<u64>> = Mutex::new((0..runs).step_by(chunk as usize * 2).flat_map(|x| [x, x + 1]).collect());
            let out = Mutex::new(HashMap::new());
            std::thread::scope(|s| {
                for _ in 0..jobs {
                    s.spawn(|| loop {
                        let Some(from) = q.lock().unwrap().pop() else { return };
                        let a: Vec<String> = [
                            "worker", "--prop", &prop, "--seed", "77", "--from", &from.to_string(), "--to",
                            &(from - from % 2 + chunk * 2).min(runs).to_string(), "--step", "2", "--digests",
                        ]
                        .iter()
                        .map(|s| s.to_string())
                        .collect();
                        let r = spawn(build_of(&prop, from), &a, Duration::from_secs(300));
                        for l in r.out.lines() {
                            if let Some(x) = l.strip_prefix("L|") {
                                let (i, d) = x.split_once('|').unwrap();
                                out.lock().unwrap().insert(i.parse().unwrap(), d.to_string());
                            }
                        }
                    });
                }
            });
            out.into_inner().unwrap()
        };
        let a = collect(50, 8);
        let b = collect(7, 16);
        let c = collect(1000, 2);
        let mut diff = 0;
        for (i, d) in &a {
            total += 1;
            if b.get(i) != Some(d) || c.get(i) != Some(d) {
                diff += 1;
                if diff <= 5 {
                    println!("{prop} run {i}: {d} / {:?} / {:?}", b.get(i), c.get(i));
                }
            }
        }
        println!("{prop}: {} runs compared, {diff} differ", a.len());
        if a.len() as u64 != runs {
            println!("{prop}: only {} of {runs} runs completed", a.len());
            bad += 1;
        }
        bad += diff;
    }
    println!("determinism: {total} runs executed three times, {bad} differences");
    let _ = std::io::stdout().flush();
    (bad > 0) as i32
}
