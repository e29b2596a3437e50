//! Global state of one simulated run: item registry, fault arms, counters, event log.
use crate::rng::Rng;
use std::cell::{Cell, UnsafeCell};

/// Kinds of injected faults.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Fault {
    None = 0,
    /// The comparison function panics at its n-th call.
    Cmp,
    /// The storage refuses the n-th allocation.
    Alloc,
    /// Item clone panics at its n-th call.
    Clone,
    /// Item destructor panics at its n-th call.
    Drop,
    /// The visitor panics at the n-th node.
    Visit,
    /// The code consuming an iterator panics.
    Consumer,
    /// Iterator abandoned (dropped) before exhaustion.
    Cancel,
    /// Iterator leaked (never dropped).
    Leak,
    /// The comparison function answers arbitrarily (n = mode).
    Byz,
    /// Writer faults.
    WShort,
    WIntr,
    WErr,
    WZero,
    WPanic,
    /// Item formatting panics / fails during an export.
    Fmt,
    /// A thread is not scheduled for a long stretch.
    Stall,
    /// The storage moves live nodes in memory.
    Relocate,
    /// The storage hands out a just-released identifier again.
    IdReuse,
    /// A callback makes calls of its own (n-th callback of the call).
    Reent,
    /// A call made by a callback is aborted.
    InnerAbort,
}
pub const NF: usize = 21;
pub const FAULT_NAMES: [&str; NF] = [
    "none", "cmp-panic", "alloc-refused", "clone-panic", "drop-panic", "visitor-panic",
    "consumer-panic", "iterator-abandoned", "iterator-leaked", "cmp-inconsistent", "write-short",
    "write-interrupted", "write-error", "write-zero", "write-panic", "fmt-error", "thread-stalled",
    "node-relocated", "id-reused", "callback-reenters", "inner-call-aborted",
];
impl Fault {
    pub fn from_name(s: &str) -> Option<Fault> {
        FAULT_NAMES.iter().position(|x| *x == s).map(|i| unsafe { std::mem::transmute(i as u8) })
    }
    pub fn name(self) -> &'static str {
        FAULT_NAMES[self as usize]
    }
}

/// Payload of injected panics.
pub struct Injected(pub Fault);

pub fn inject(f: Fault) -> ! {
    std::panic::resume_unwind(Box::new(Injected(f)))
}

/// State of the operation in progress on one thread.
#[derive(Default)]
pub struct Op {
    pub cmp_arm: Cell<u32>,
    pub alloc_arm: Cell<u32>,
    pub clone_arm: Cell<u32>,
    pub drop_arm: Cell<u32>,
    pub visit_arm: Cell<u32>,
    pub fmt_arm: Cell<u32>,
    pub reent_arm: Cell<u32>,
    pub byz: Cell<u64>,
    pub byz_mode: Cell<u8>,
    pub cmp_calls: Cell<u64>,
    pub st_calls: Cell<u64>,
    pub clones: Cell<u64>,
    pub drops: Cell<u64>,
    pub allocs: Cell<u64>,
    pub releases: Cell<u64>,
    pub cmp_budget: Cell<u64>,
    pub st_budget: Cell<u64>,
    pub fired: Cell<u8>,
    /// Harness is inspecting: no faults, no yields, no budgets.
    pub quiet: Cell<bool>,
    /// A panic of the trees' user is unwinding: what it drops is dropped as ever.
    pub unwinding: Cell<bool>,
}

thread_local! {
    pub static OP: Op = Op::default();
}

pub fn op<R>(f: impl FnOnce(&Op) -> R) -> R {
    OP.with(f)
}

/// Runs harness inspection code: library callbacks are neither counted nor faulted.
pub struct Quiet(bool);
impl Quiet {
    pub fn new() -> Quiet {
        Quiet(op(|o| o.quiet.replace(true)))
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        op(|o| o.quiet.set(self.0))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    /// Must be dropped or handed out exactly once.
    Normal,
    /// Forgotten: must never be dropped.
    Forgotten,
    /// May be leaked (a documented fault happened), must not be dropped twice.
    MayLeak,
}

pub struct ItemRec {
    pub live: bool,
    pub class: Class,
}

pub struct StRec {
    pub active: i64,
    pub alive: bool,
}

#[derive(Clone, Copy, Default)]
pub struct StoragePolicy {
    /// 0 LIFO reuse, 1 FIFO reuse, 2 random reuse, 3 never reuse
    pub reuse: u8,
    /// permille of allocations on which live nodes are moved in memory
    pub reloc: u16,
    pub dropper: bool,
    /// identifier numbering
    pub base: u32,
    pub stride: u32,
}

pub struct Ctx {
    pub items: Vec<ItemRec>,
    pub live_normal: i64,
    pub storages: Vec<StRec>,
    pub storage_seed: u64,
    pub storage_fixed: Option<StoragePolicy>,
    pub counts: [u64; NF],
    pub log: u64,
    pub events: u64,
    pub step: usize,
    pub what: String,
    pub verbose: bool,
    /// A tolerated leak happened: end-of-run leak checks do not apply.
    pub leak_tol: bool,
    pub rng_st: Rng,
    /// Property under check (0: report every kind of failure).
    pub prop: u32,
    pub cur: crate::plan::Op,
    pub cloned: bool,
    pub threaded: bool,
    /// Compare through the library's own key/value items.
    pub via_item: bool,
    /// Items have a destructor, which tells when they are gone.
    pub tracked: bool,
    /// What a re-entering callback does.
    pub nest: Option<(unsafe fn(*mut ()), *mut ())>,
}

struct Global(UnsafeCell<Option<Ctx>>);
unsafe impl Sync for Global {}
static CTX: Global = Global(UnsafeCell::new(None));

/// Only one simulated thread runs at any time (see sched.rs), so this is never aliased across
/// running threads.
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe { (*CTX.0.get()).as_mut().expect("no run in progress") }
}

pub fn reset(prop: u32, storage_seed: u64, storage_fixed: Option<StoragePolicy>, verbose: bool) {
    let c = Ctx {
        items: Vec::new(),
        live_normal: 0,
        storages: Vec::new(),
        storage_seed,
        storage_fixed,
        counts: [0; NF],
        log: 0xcbf29ce484222325,
        events: 0,
        step: 0,
        what: String::new(),
        verbose,
        leak_tol: false,
        rng_st: Rng::new(storage_seed ^ 0x5707),
        prop,
        cur: crate::plan::Op::Get,
        cloned: false,
        threaded: false,
        via_item: prop == 1 && storage_seed % 2 == 0,
        tracked: true,
        nest: None,
    };
    unsafe { *CTX.0.get() = Some(c) }
}

/// Is the item known to be still there (neither destroyed nor unable to tell)?
pub fn destroyable(uid: u32) -> bool {
    let c = ctx();
    c.tracked && c.items[uid as usize].live
}

/// Adds a word to the event log digest.
pub fn ev(x: u64) {
    let c = ctx();
    c.events += 1;
    let mut h = c.log;
    for i in 0..8 {
        h ^= (x >> (i * 8)) & 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    c.log = h;
}

/// Failures after which the run cannot go on.
pub fn is_hard(class: &str) -> bool {
    matches!(
        class,
        "item-integrity" | "double-drop" | "forgotten-dropped" | "storage-protocol" | "heap" | "crash" | "no-progress" | "unwalkable"
    )
}

/// Does a failure of this class, at this point of the run, concern the property under check?
/// Other failures belong to another property's check: they end or redirect the run silently.
pub fn concerns(class: &str) -> bool {
    use crate::plan::Op::*;
    let c = ctx();
    let fired = |f: Fault| c.counts[f as usize] > 0;
    match c.prop {
        1 => matches!(class, "result" | "content" | "len" | "panic" | "item-integrity" | "crash" | "no-progress" | "unwalkable"),
        2 => fired(Fault::Cmp),
        3 => fired(Fault::Alloc),
        4 => matches!(class, "shape" | "order" | "len" | "unwalkable"),
        5 => matches!(class, "own" | "leak-item" | "item-integrity" | "double-drop" | "forgotten-dropped"),
        6 => matches!(
            class,
            "store" | "leak-mem" | "storage-protocol" | "heap" | "crash" | "result" | "content" | "len" | "panic" | "unwalkable"
        ),
        7 => matches!(c.cur, Iter | IterM | Into),
        8 => matches!(c.cur, InsAt | RemAt | RepAt | Nav | Edge | Walk),
        9 => c.cur == Clone || c.cloned,
        10 => fired(Fault::Drop),
        11 => c.cur == Dot,
        12 => true,
        20 => c.threaded || fired(Fault::Reent),
        13 => fired(Fault::Byz),
        14 => c.cur == Visit || fired(Fault::Visit),
        16 => c.cur == Map,
        17 => c.cur == Cursor,
        22 => c.cur == NodeEd,
        21 => class == "validator",
        15 => matches!(class, "bound" | "no-progress"),
        _ => true,
    }
}

/// Reports a failure and ends this process at once: nothing of the library runs afterwards.
pub fn fatal(class: &str, msg: String) -> ! {
    let _o = crate::alloc::Out::new();
    let c = ctx();
    let mine = !is_hard(class) || concerns(class);
    use std::io::Write;
    let line = format!(
        "{}|{}|{}|{}|{}\n",
        if mine { "SIMVIOLATION" } else { "SIMFOREIGN" },
        class,
        c.step,
        c.what.replace('|', "/"),
        msg.replace(['\n', '|'], " ")
    );
    let sched = crate::sched::taken_text();
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = out.write_all(line.as_bytes());
    if let Some(s) = sched {
        let _ = writeln!(out, "SIMSCHED|{s}");
    }
    let _ = out.flush();
    drop(out);
    crate::before_exit();
    // no destructors, no atexit: the library's state may be corrupt
    unsafe { _exit(if mine { 3 } else { 4 }) }
}

extern "C" {
    pub fn _exit(code: i32) -> !;
}

pub fn count(f: Fault) {
    ctx().counts[f as usize] += 1;
}

/// Called by every callback: makes calls of its own if the run says so.
#[inline]
pub fn reent() {
    if op(|o| o.reent_arm.get() != 0 && !o.quiet.get() && !std::thread::panicking() && tick(&o.reent_arm, Fault::Reent)) {
        nested()
    }
}

#[cold]
fn nested() {
    let Some((f, p)) = ctx().nest else { return };
    // the interrupted call finds its own state again afterwards
    let saved = op(|o| {
        let a = [&o.cmp_arm, &o.alloc_arm, &o.clone_arm, &o.drop_arm, &o.visit_arm, &o.fmt_arm, &o.reent_arm].map(|c| c.replace(0));
        let n = [&o.byz, &o.cmp_calls, &o.st_calls, &o.clones, &o.drops, &o.allocs, &o.releases, &o.cmp_budget, &o.st_budget].map(|c| c.get());
        (a, n, o.byz_mode.get(), o.fired.get())
    });
    ev(0x4E57);
    unsafe { f(p) };
    ev(0x4E58);
    op(|o| {
        for (c, v) in [&o.cmp_arm, &o.alloc_arm, &o.clone_arm, &o.drop_arm, &o.visit_arm, &o.fmt_arm, &o.reent_arm].iter().zip(saved.0) {
            c.set(v)
        }
        for (c, v) in [&o.byz, &o.cmp_calls, &o.st_calls, &o.clones, &o.drops, &o.allocs, &o.releases, &o.cmp_budget, &o.st_budget].iter().zip(saved.1) {
            c.set(v)
        }
        o.byz_mode.set(saved.2);
        o.fired.set(saved.3);
    });
}

/// Fires an armed fault if its countdown reaches zero.
pub fn tick(arm: &Cell<u32>, fault: Fault) -> bool {
    let n = arm.get();
    if n == 0 {
        return false;
    }
    arm.set(n - 1);
    if n == 1 {
        op(|o| o.fired.set(fault as u8));
        count(fault);
        ev(0xFA00 + fault as u64);
        true
    } else {
        false
    }
}
