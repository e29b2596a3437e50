//! Cooperative scheduler: real threads, of which exactly one runs at any time. At every yield
//! point (comparison, storage access, item copy, visitor call, between operations) the seeded
//! scheduler decides who continues.
use crate::ctx::{count, ctx, ev, op, Fault};
use crate::rng::Rng;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::thread::Thread;

pub const MAIN: usize = 0;

pub struct Sched {
    pub threads: Vec<Option<Thread>>, // index 0 = main
    pub runnable: Vec<bool>,
    pub rng: Rng,
    pub switch_permille: u64,
    /// thread kept off the processor for a while
    pub starve: Option<(usize, u64)>,
    /// yield points passed so far
    pub yields: u64,
    /// explicit schedule (yield index -> thread), used by replays
    pub explicit: Option<std::collections::BTreeMap<u64, usize>>,
    /// switches taken
    pub taken: Vec<(u64, usize)>,
    pub in_phase: bool,
}

struct G(UnsafeCell<Option<Sched>>);
unsafe impl Sync for G {}
static SCHED: G = G(UnsafeCell::new(None));
static ACTIVE: AtomicBool = AtomicBool::new(false);
static CURRENT: AtomicUsize = AtomicUsize::new(MAIN);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(MAIN) };
}

pub fn sched() -> &'static mut Sched {
    unsafe { (*SCHED.0.get()).as_mut().expect("no scheduler") }
}

pub fn install(s: Sched) {
    unsafe { *SCHED.0.get() = Some(s) }
    CURRENT.store(MAIN, SeqCst);
    ACTIVE.store(true, SeqCst);
}

pub fn uninstall() -> Sched {
    ACTIVE.store(false, SeqCst);
    unsafe { (*SCHED.0.get()).take().unwrap() }
}

/// Switches taken so far, as a replayable schedule.
pub fn taken_text() -> Option<String> {
    if !ACTIVE.load(SeqCst) {
        return None;
    }
    let v: Vec<String> = sched().taken.iter().map(|(k, t)| format!("{k}:{t}")).collect();
    Some(v.join(","))
}

pub fn set_me(t: usize) {
    ME.with(|m| m.set(t))
}

pub fn wait_for_turn() {
    let me = ME.with(|m| m.get());
    while CURRENT.load(Acquire) != me {
        std::thread::park();
    }
}

fn hand_to(t: usize) {
    let th = sched().threads[t].clone();
    CURRENT.store(t, Release);
    if let Some(th) = th {
        th.unpark();
    }
}

/// Main thread: let `t` run until the phase is over.
pub fn run_from(t: usize) {
    hand_to(t);
    wait_for_turn();
}

pub fn back_to_main() {
    hand_to(MAIN);
}

/// The current thread has nothing left to do in this phase.
pub fn finish() {
    let s = sched();
    let me = ME.with(|m| m.get());
    s.runnable[me] = false;
    let next = match pick_any(s, me) {
        Some(t) => t,
        None => MAIN,
    };
    ev(0x5C4E_0000 + next as u64);
    hand_to(next);
}

fn pick_any(s: &mut Sched, me: usize) -> Option<usize> {
    let cands: Vec<usize> =
        (1..s.runnable.len()).filter(|t| s.runnable[*t] && *t != me).collect();
    if cands.is_empty() {
        return None;
    }
    if s.explicit.is_some() {
        return Some(cands[0]);
    }
    // no draw: finishing order is a function of the schedule so far
    Some(cands[0])
}

/// A point at which another simulated thread may take over.
#[inline]
pub fn yield_point(kind: u64) {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    yield_slow(kind)
}

fn yield_slow(kind: u64) {
    if op(|o| o.quiet.get()) {
        return;
    }
    let s = sched();
    if !s.in_phase {
        return;
    }
    let me = ME.with(|m| m.get());
    let k = s.yields;
    s.yields += 1;
    let next = match &s.explicit {
        Some(map) => match map.get(&k) {
            Some(t) if *t < s.runnable.len() && s.runnable[*t] => *t,
            _ => me,
        },
        None => {
            if let Some((_, until)) = s.starve {
                if k >= until {
                    s.starve = None;
                }
            }
            if s.rng.permille(2) {
                let t = 1 + s.rng.below(s.runnable.len() as u64 - 1) as usize;
                let len = 20 + s.rng.below(200);
                s.starve = Some((t, k + len));
                count(Fault::Stall);
            }
            let starved = s.starve.map(|x| x.0);
            let force = starved == Some(me);
            if force || s.rng.permille(s.switch_permille) {
                let mut cands: Vec<usize> = (1..s.runnable.len())
                    .filter(|t| s.runnable[*t] && *t != me && starved != Some(*t))
                    .collect();
                if cands.is_empty() {
                    cands.push(me);
                }
                cands[s.rng.below(cands.len() as u64) as usize]
            } else {
                me
            }
        }
    };
    if next != me {
        s.taken.push((k, next));
        ev(0x5C_0000_0000 + (kind << 16) + next as u64);
        hand_to(next);
        wait_for_turn();
        let _ = ctx();
    }
}
