//! btsim: deterministic simulation of raw-btree with fault injection. See /verif/DESIGN.md.
#![allow(unused_must_use)]
mod alloc;
mod ctx;
mod cursor;
mod damage;
mod dot;
mod driver;
mod edit;
mod exec;
mod gen;
mod item;
mod map;
mod nest;
mod plan;
mod rng;
mod sched;
mod storage;
mod sys;
mod threads;
mod unit;

use exec::{Stats, World};
use item::{Bare, Kind, Large, Small, Tracked};
use plan::Plan;
use raw_btree::storage::BoxStorage;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use storage::SimStorage;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

pub const BUILD: &str = if cfg!(debug_assertions) { "checked" } else { "ship" };

/// One simulated run. Does not return if the run fails.
pub fn run(p: &Plan, verbose: bool) -> Stats {
    let mut s = once(p, verbose);
    // Memory that is kept and used again (a cache, a static) is no leak: the same run, made again,
    // does not keep any more of it.
    for k in 0..3 {
        if s.leaked == 0 {
            break;
        }
        if k == 2 {
            if ctx::concerns("leak-mem") {
                ctx::fatal("leak-mem", format!("{} block(s) allocated by the tree never freed", s.leaked));
            }
            s.foreign += 1;
            break;
        }
        s = once(p, verbose);
    }
    s
}

fn once(p: &Plan, verbose: bool) -> Stats {
    let prop = p.prop[1..].parse().unwrap_or(0);
    ctx::reset(prop, p.storage_seed, p.policy, verbose);
    alloc::OUTSTANDING.store(0, std::sync::atomic::Ordering::SeqCst);
    alloc::flush_quarantine();
    sys::run_timer(if verbose { 60 } else { 20 });
    fn go<P: Kind, S: raw_btree::Storage<Tracked<P>>>(p: &Plan) -> Stats
    where
        S::Node: Into<usize>,
    {
        ctx::ctx().tracked = <P::Core as item::Core>::TRACKED;
        let w = World::<P, S>::new(p);
        ctx::ctx().threaded = p.threads > 0;
        if p.prop == "C12" || p.steps.iter().any(|s| s.op >= plan::Op::TGet) {
            w.run_threads(p)
        } else {
            w.run(p)
        }
    }
    fn with<P: Kind>(p: &Plan) -> Stats {
        match p.storage.as_str() {
            "box" => go::<P, BoxStorage>(p),
            _ => go::<P, SimStorage<Tracked<P>>>(p),
        }
    }
    match p.pad {
        Small::CODE => with::<Small>(p),
        Bare::CODE => with::<Bare>(p),
        _ => with::<Large>(p),
    }
}

fn kind_name(pad: u8) -> &'static str {
    match pad {
        Small::CODE => Small::NAME,
        Bare::CODE => Bare::NAME,
        _ => Large::NAME,
    }
}

/// Totals of the runs made by one worker process.
#[derive(Default)]
pub struct Totals {
    pub runs: u64,
    pub steps: u64,
    pub calls: u64,
    pub events: u64,
    pub yields: u64,
    pub switches: u64,
    pub foreign: u64,
    pub abandoned: u64,
    pub ops: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub digests: Vec<(u64, bool)>,
    pub max_height: usize,
    pub max_len: usize,
    pub max_cmp: f64,
    pub max_st: f64,
    pub max_iter: f64,
    pub work: BTreeMap<&'static str, f64>,
    pub storage: BTreeMap<String, u64>,
}

impl Totals {
    fn add(&mut self, p: &Plan, s: &Stats) {
        let c = ctx::ctx();
        self.runs += 1;
        self.steps += s.steps;
        self.calls += s.calls;
        self.events += c.events;
        self.yields += s.yields;
        self.switches += s.switches;
        self.foreign += s.foreign;
        self.abandoned += s.abandoned as u64;
        for (i, n) in s.ops.iter().enumerate() {
            if *n > 0 {
                *self.ops.entry(plan::OPS[i].1).or_insert(0) += n;
            }
        }
        for (i, n) in c.counts.iter().enumerate() {
            if *n > 0 {
                *self.faults.entry(ctx::FAULT_NAMES[i]).or_insert(0) += n;
            }
        }
        for (k, n) in &s.probes {
            *self.probes.entry(k).or_insert(0) += n;
        }
        self.states.extend(s.states.iter());
        let need: &[ctx::Fault] = match c.prop {
            2 => &[ctx::Fault::Cmp],
            3 => &[ctx::Fault::Alloc],
            10 => &[ctx::Fault::Drop],
            13 => &[ctx::Fault::Byz],
            20 => &[ctx::Fault::Reent],
            _ => &[],
        };
        let nontrivial = s.calls >= 5
            && (s.max_len >= 2 || matches!(c.prop, 16 | 22))
            && (need.iter().all(|f| c.counts[*f as usize] > 0) || s.switches > 0)
            && (c.prop != 12 || s.switches > 0)
            && (c.prop != 9 || s.ops[plan::Op::Clone as usize] > 0)
            && (c.prop != 11 || s.ops[plan::Op::Dot as usize] > 0)
            && (c.prop != 16 || s.ops[plan::Op::Map as usize] > 0)
            && (c.prop != 17 || s.ops[plan::Op::Cursor as usize] > 0)
            && (c.prop != 22 || s.ops[plan::Op::NodeEd as usize] > 0)
            && (c.prop != 21 || s.damaged > 0)
            && (c.prop != 14 || s.ops[plan::Op::Visit as usize] > 0);
        self.digests.push((rng::mix(&[c.log, s.sched_hash]), nontrivial));
        self.max_height = self.max_height.max(s.max_height);
        self.max_len = self.max_len.max(s.max_len);
        self.max_cmp = self.max_cmp.max(s.max_cmp_ratio);
        self.max_st = self.max_st.max(s.max_st_ratio);
        self.max_iter = self.max_iter.max(s.max_iter_ratio);
        for (i, w) in s.work.iter().enumerate() {
            if *w > 0.0 {
                let e = self.work.entry(plan::OPS[i].1).or_insert(0.0);
                *e = e.max(*w);
            }
        }
        *self.storage.entry(format!("{}/{}", p.storage, kind_name(p.pad))).or_insert(0) += 1;
    }

    fn print(&self) {
        let mut o = String::new();
        for (k, v) in [
            ("runs", self.runs), ("steps", self.steps), ("calls", self.calls), ("events", self.events),
            ("yields", self.yields), ("switches", self.switches), ("foreign", self.foreign),
            ("abandoned", self.abandoned),
        ] {
            o += &format!("N|{k}|{v}\n");
        }
        for (t, m) in [("O", &self.ops), ("F", &self.faults), ("P", &self.probes)] {
            for (k, v) in m {
                o += &format!("{t}|{k}|{v}\n");
            }
        }
        for (k, v) in &self.storage {
            o += &format!("T|{k}|{v}\n");
        }
        o += &format!("X|{}|{}|{}|{}|{}\n", self.max_height, self.max_len, self.max_cmp, self.max_st, self.max_iter);
        for (k, w) in &self.work {
            o += &format!("W|{k}|{w}\n");
        }
        for (d, n) in &self.digests {
            o += &format!("D|{d:x}|{}\n", *n as u8);
        }
        for s in &self.states {
            o += &format!("S|{s:x}\n");
        }
        o += "END\n";
        let out = std::io::stdout();
        let mut out = out.lock();
        let _ = out.write_all(o.as_bytes());
        let _ = out.flush();
    }
}

struct TotalsCell(std::cell::UnsafeCell<Option<(u64, Totals)>>);
unsafe impl Sync for TotalsCell {}
static TOTALS: TotalsCell = TotalsCell(std::cell::UnsafeCell::new(None));
fn totals() -> &'static mut Option<(u64, Totals)> {
    unsafe { &mut *TOTALS.0.get() }
}

/// Called just before a failed run ends the process.
pub fn before_exit() {
    if let Some((at, t)) = totals() {
        println!("AT|{at}");
        t.print();
    }
}

fn worker(args: &[String]) {
    let get = |k: &str| -> String {
        args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or_else(|| panic!("missing {k}"))
    };
    let prop = get("--prop");
    let base: u64 = get("--seed").parse().unwrap();
    let from: u64 = get("--from").parse().unwrap();
    let to: u64 = get("--to").parse().unwrap();
    let step: u64 = get("--step").parse().unwrap();
    let thorough = args.iter().any(|a| a == "--thorough");
    let trace = args.iter().any(|a| a == "--trace");
    let digests = args.iter().any(|a| a == "--digests");
    *totals() = Some((from, Totals::default()));
    let mut i = from;
    while i < to {
        totals().as_mut().unwrap().0 = i;
        if trace {
            println!("AT|{i}");
        }
        let p = gen::plan(&prop, gen::seed_of(base, &prop, i), BUILD, thorough);
        let s = run(&p, false);
        if digests {
            println!("L|{i}|{:x}|{}|{}", ctx::ctx().log, ctx::ctx().events, s.sched_hash);
        }
        totals().as_mut().unwrap().1.add(&p, &s);
        i += step;
    }
    totals().as_ref().unwrap().1.print();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    sys::one_heap();
    exec::install_hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            sys::install_handlers();
            sys::limit_memory();
            worker(&args[2..])
        }
        Some("exec") => {
            sys::install_handlers();
            sys::limit_memory();
            let text = std::fs::read_to_string(&args[2]).expect("plan file");
            let p = Plan::parse(&text).expect("plan");
            let verbose = args.iter().any(|a| a == "--verbose");
            let s = run(&p, verbose);
            println!("RUN OK: {} steps, {} library calls, {} events, log digest {:x}, schedule {:x}, foreign {}", s.steps, s.calls, ctx::ctx().events, ctx::ctx().log, s.sched_hash, s.foreign);
        }
        Some("plan") => {
            // print the plan of run I of a check
            let base: u64 = args[3].parse().unwrap();
            let i: u64 = args[4].parse().unwrap();
            let thorough = args.iter().any(|a| a == "--thorough");
            print!("{}", gen::plan(&args[2], gen::seed_of(base, &args[2], i), driver::build_of(&args[2], i), thorough).to_text());
        }
        Some("check") => std::process::exit(driver::check(&args[2])),
        Some("replay") => std::process::exit(driver::replay(&args[2])),
        Some("selftest") => std::process::exit(driver::selftest(&args[2..])),
        _ => {
            eprintln!("usage: btsim check PROP | replay FILE | selftest [RUNS] | exec FILE [--verbose] | plan PROP SEED RUN");
            std::process::exit(2)
        }
    }
}
