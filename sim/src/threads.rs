//! Multi-threaded runs (C12): real threads of which exactly one runs at a time, chosen by the
//! seeded scheduler at every comparison, node access, item copy and iterator step.
//!
//! A plan is cut into phases. In a read phase several threads use one tree through `&RawBTree`;
//! in an exclusive phase one thread, any thread, owns the tree. Threads live for the whole run, so
//! anything the library might keep per thread survives from phase to phase.
use crate::alloc::Out;
use crate::ctx::{self, count, ctx, ev, fatal, op, Fault, Quiet};
use crate::exec::{diff, finish, finish_model, FINISH, FINISH_NAMES, arm, disarm, lib, walk, Caught, Ent, Slot, Tree, World};
use crate::item::Kind;
use crate::item::{cmp_key, Tracked};
use crate::nest::Nest;
use crate::plan::{Op, Plan, Step};
use crate::sched::{self, Sched};
use raw_btree::Storage;
use std::cell::UnsafeCell;

type Job = Box<dyn FnOnce()>;
struct Jobs(UnsafeCell<Vec<Option<Job>>>);
unsafe impl Sync for Jobs {}
static JOBS: Jobs = Jobs(UnsafeCell::new(Vec::new()));
static QUIT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn jobs() -> &'static mut Vec<Option<Job>> {
    // only touched by the one thread that runs
    unsafe { &mut *JOBS.0.get() }
}

fn worker(me: usize) {
    sched::set_me(me);
    loop {
        sched::wait_for_turn();
        if QUIT.load(std::sync::atomic::Ordering::SeqCst) {
            sched::back_to_main();
            return;
        }
        if let Some(j) = jobs()[me].take() {
            j();
        }
        sched::finish();
    }
}

pub struct Pool {
    handles: Vec<std::thread::JoinHandle<()>>,
}

impl Pool {
    pub fn start(p: &Plan) -> Pool {
        let n = p.threads;
        QUIT.store(false, std::sync::atomic::Ordering::SeqCst);
        *jobs() = (0..=n).map(|_| None).collect();
        sched::install(Sched {
            threads: vec![None; n + 1],
            runnable: vec![false; n + 1],
            rng: crate::rng::Rng::new(p.sched_seed),
            switch_permille: p.switch_permille,
            starve: None,
            yields: 0,
            explicit: p.explicit.as_ref().map(|v| v.iter().copied().collect()),
            taken: vec![],
            in_phase: false,
        });
        sched::sched().threads[0] = Some(std::thread::current());
        let mut handles = vec![];
        for t in 1..=n {
            let h = std::thread::spawn(move || worker(t));
            sched::sched().threads[t] = Some(h.thread().clone());
            handles.push(h);
        }
        Pool { handles }
    }

    /// Runs the given jobs (thread number, work), interleaved by the scheduler.
    pub fn run<'a>(&self, work: Vec<(usize, Box<dyn FnOnce() + 'a>)>) {
        if work.is_empty() {
            return;
        }
        let shared = work.len() > 1;
        let mut first = usize::MAX;
        for (t, w) in work {
            // the jobs end before this function returns
            jobs()[t] = Some(unsafe { std::mem::transmute::<Box<dyn FnOnce() + 'a>, Job>(w) });
            sched::sched().runnable[t] = true;
            first = first.min(t);
        }
        sched::sched().in_phase = shared;
        sched::run_from(first);
        sched::sched().in_phase = false;
    }

    pub fn stop(self) -> Sched {
        QUIT.store(true, std::sync::atomic::Ordering::SeqCst);
        for (i, h) in self.handles.into_iter().enumerate() {
            sched::run_from(i + 1);
            h.join().unwrap();
        }
        sched::uninstall()
    }
}

/// One library call made by a reader.
fn call<R>(st: &Step, n: usize, heavy: bool, f: impl FnOnce() -> R) -> Option<R> {
    arm(st, ctx().storage_seed, n, heavy);
    let r = lib(f);
    disarm();
    match r {
        Ok(r) => Some(r),
        Err(Caught::Injected(f)) => {
            ev(0xFA17 + f as u64);
            None
        }
        Err(Caught::Unexpected(m)) => fatal("panic", format!("{} panicked: {m}", st.op.name())),
    }
}

fn seen<P: Kind>(i: &Tracked<P>) -> Ent {
    i.check("item read by a thread");
    Ent { key: i.key, uid: i.uid, val: i.val }
}

fn expect(what: &str, got: Option<Ent>, want: Option<Ent>) {
    ev(got.map(|g| g.uid as u64).unwrap_or(u64::MAX));
    if got != want {
        fatal("result", format!("{what} returned {got:?} instead of {want:?}"));
    }
}

fn pick(m: &[Ent], sel: i64, mode: i64) -> i64 {
    let x = ((sel as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 16) as usize;
    if m.is_empty() {
        return sel % 64;
    }
    let k = m[x % m.len()].key;
    match mode % 4 {
        0 => k + 1,
        3 => k - 1,
        _ => k,
    }
}

/// Operations several threads make at once.
fn in_parallel(o: Op) -> bool {
    matches!(o, Op::TGet | Op::TEnds | Op::TIter | Op::TNav | Op::TVisit | Op::TClone | Op::TWalk | Op::TOwn)
}

/// One read-only operation on a shared tree.
fn reader<P: Kind, S: Storage<Tracked<P>>>(t: &Tree<P, S>, m: &[Ent], st: &Step) {
    let n = m.len();
    ev(0x4EAD + st.op as u64);
    sched::yield_point(9);
    match st.op {
        Op::TGet => {
            let key = pick(m, st.b, st.c);
            if let Some(got) = call(st, n, false, || t.get(cmp_key, &key).map(seen)) {
                let want = m.binary_search_by(|e| e.key.cmp(&key)).ok().map(|i| m[i]);
                expect("get on a shared tree", got, want);
            }
        }
        Op::TEnds => {
            if let Some((a, b, l, e)) =
                call(st, n, false, || (t.first().map(seen), t.last().map(seen), t.len(), t.is_empty()))
            {
                expect("first on a shared tree", a, m.first().copied());
                expect("last on a shared tree", b, m.last().copied());
                if l != n || e != (n == 0) {
                    fatal("len", format!("length of a shared tree is {l} instead of {n}"));
                }
            }
        }
        Op::TIter => {
            let script = &st.script;
            let _ = call(st, n, true, || {
                let mut it = t.iter();
                let (mut lo, mut hi) = (0, n);
                let mut step = |front: bool| -> bool {
                    let got = if front { it.next() } else { it.next_back() };
                    let got = got.map(seen);
                    let _o = Out::new();
                    let want = if lo < hi {
                        if front {
                            lo += 1;
                            Some(m[lo - 1])
                        } else {
                            hi -= 1;
                            Some(m[hi])
                        }
                    } else {
                        None
                    };
                    expect("iteration over a shared tree", got, want);
                    if it.len() != hi - lo {
                        fatal("result", format!("iterator over a shared tree reports {} remaining items instead of {}", it.len(), hi - lo));
                    }
                    sched::yield_point(5);
                    got.is_some()
                };
                for b in script {
                    match b & 15 {
                        0..=5 => {
                            step(true);
                        }
                        6..=11 => {
                            step(false);
                        }
                        12 | 13 => while step(true) {},
                        14 => while step(false) {},
                        _ => {
                            count(Fault::Consumer);
                            ctx::inject(Fault::Consumer)
                        }
                    }
                }
                let fin = st.c.max(0) as usize;
                let (kind, k) = (fin % FINISH, (fin / FINISH) % 7);
                if lo < hi && kind == 0 {
                    count(Fault::Cancel);
                }
                let (want, wn) = {
                    let _o = Out::new();
                    finish_model(m, lo, hi, kind, k)
                };
                let mut got = vec![];
                let r = finish(it, kind, k, |i| {
                    let _o = Out::new();
                    got.push(seen(i));
                    sched::yield_point(5);
                });
                let _o = Out::new();
                if got != want || r != wn {
                    fatal("result", format!("{}({k}) over a shared tree returned {r:?} instead of {wn:?}: {}", FINISH_NAMES[kind], diff(&got, &want)));
                }
                drop((got, want));
            });
        }
        Op::TNav | Op::TWalk => {
            if n == 0 {
                return;
            }
            let key = pick(m, st.b, 1);
            let i = m.binary_search_by(|e| e.key.cmp(&key)).unwrap();
            let Some(a) = call(st, n, false, || t.address_of(cmp_key, &key)) else { return };
            let Ok(a) = a else { fatal("result", format!("no address for key {key} of a shared tree")) };
            let fwd = st.c % 2 == 0;
            let max = if st.op == Op::TNav { 3 } else { n + 2 };
            let quiet = Step { fault: Fault::None, ..st.clone() };
            let got = call(&quiet, n, true, || unsafe {
                let mut out = vec![];
                let mut cur = Some(a);
                while let Some(c) = cur {
                    {
                        let r = t.get_at(c).map(seen);
                        let _o = Out::new();
                        out.push(r);
                        if out.len() > max {
                            break;
                        }
                        sched::yield_point(6);
                    }
                    cur = if fwd { t.next_item_address(c) } else { t.previous_item_address(c) };
                }
                out
            });
            if let Some(got) = got {
                let _o = Out::new();
                let want: Vec<Option<Ent>> = if fwd {
                    m[i..].iter().map(|e| Some(*e)).take(max + 1).collect()
                } else {
                    m[..=i].iter().rev().map(|e| Some(*e)).take(max + 1).collect()
                };
                ev(got.len() as u64);
                if got != want {
                    fatal("result", format!("following addresses on a shared tree from key {key} gives other items than expected"));
                }
            }
        }
        Op::TVisit => {
            let w = walk(t);
            let mut ids = vec![];
            let r = call(st, n, true, || {
                t.visit_from_leaves(|id| {
                    let _o = Out::new();
                    if op(|o| ctx::tick(&o.visit_arm, Fault::Visit)) {
                        ctx::inject(Fault::Visit)
                    }
                    ids.push(id);
                    sched::yield_point(7);
                })
            });
            if r.is_some() && (ids.len() != w.ids.len() || w.ids.iter().any(|x| !ids.contains(x))) {
                fatal("result", format!("visit of a shared tree saw {} of {} nodes", ids.len(), w.ids.len()));
            }
        }
        Op::TClone => {
            let r = call(st, n, true, || t.clone());
            match r {
                Some(c) => {
                    let w = walk(&c);
                    let same = w.items.len() == n
                        && w.items.iter().zip(m).all(|(a, b)| a.key == b.key && a.val == b.val);
                    if !same || w.err.is_some() || c.len() != n {
                        fatal("clone", format!("clone of a shared tree is not a copy of it ({} items, {:?})", w.items.len(), w.err));
                    }
                    let quiet = Step { fault: Fault::None, ..st.clone() };
                    call(&quiet, n, true, || drop(c));
                }
                None => ctx().leak_tol = true,
            }
        }
        _ => (),
    }
}

struct Raw<T>(*mut T);
impl<T> Clone for Raw<T> {
    fn clone(&self) -> Self {
        Raw(self.0)
    }
}

impl<P: Kind, S: Storage<Tracked<P>>> World<P, S>
where
    S::Node: Into<usize>,
{
    /// Runs a plan of phases. With no thread, everything runs in order on the main thread.
    pub fn run_threads(mut self, p: &Plan) -> crate::exec::Stats {
        let pool = if p.threads > 0 { Some(Pool::start(p)) } else { None };
        let k = p.threads.max(1) as i64;
        let mut owns: Vec<Nest<P, S>> = (0..k.max(4)).map(|t| Nest::private(p, t as u64)).collect();
        let mut i = 0;
        while i < p.steps.len() && !self.stop {
            let st = &p.steps[i];
            match st.op {
                Op::TBarrier => i += 1,
                Op::TWrite => {
                    // an ordinary step, run by one of the threads
                    const KINDS: [Op; 16] = [
                        Op::Ins, Op::Rem, Op::Ins, Op::Rem, Op::Fill, Op::Drain, Op::InsAt, Op::RemAt,
                        Op::IterM, Op::Into, Op::Clear, Op::GetM, Op::RepAt, Op::Clone, Op::Visit, Op::Ins,
                    ];
                    let kind = KINDS[(st.c % 16) as usize];
                    let b = if matches!(kind, Op::Fill | Op::Drain) { 1 + st.b % 60 } else { st.b };
                    let c = if matches!(kind, Op::Ins | Op::Rem | Op::GetM) { st.c / 16 % 6 } else { st.c / 16 };
                    let b = if kind == Op::Into { 0 } else { b };
                    let s2 = Step { op: kind, a: 0, b, c, ..st.clone() };
                    match &pool {
                        None => self.step(i, &s2),
                        Some(pool) => {
                            let w = Raw(&mut self as *mut Self);
                            pool.run(vec![(1 + (st.a % k) as usize, Box::new(move || {
                                let w = w;
                                unsafe { (*w.0).step(i, &s2) }
                            }))]);
                        }
                    }
                    i += 1;
                }
                Op::THand => {
                    self.handover(i, st, pool.as_ref(), k);
                    i += 1;
                }
                o if in_parallel(o) => {
                    let from = i;
                    while i < p.steps.len() && in_parallel(p.steps[i].op) {
                        i += 1;
                    }
                    let steps = &p.steps[from..i];
                    ctx().step = from;
                    ctx().cur = st.op;
                    ctx().what = "shared reads".into();
                    if ctx().verbose {
                        println!("steps {from}..{i}: {} reads shared by {k} thread(s) (len {})", steps.len(), self.slots[0].m.len());
                    }
                    for s in steps {
                        self.st.ops[s.op as usize] += 1;
                        self.st.steps += 1;
                        self.st.calls += 1;
                    }
                    let slot: &Slot<P, S> = &self.slots[0];
                    let one = |own: &mut Nest<P, S>, s: &Step| match s.op {
                        Op::TOwn => own.own(s.b as u64, 1 + s.c as u64 % 12),
                        _ => reader(&slot.tree, &slot.m, s),
                    };
                    match &pool {
                        None => {
                            for s in steps {
                                let t = s.a.rem_euclid(owns.len() as i64);
                                one(&mut owns[t as usize], s)
                            }
                        }
                        Some(pool) => {
                            let mut work: Vec<(usize, Box<dyn FnOnce() + '_>)> = vec![];
                            for (t, own) in (0..k).zip(owns.iter_mut()) {
                                let one = &one;
                                let mine: Vec<&Step> = steps.iter().filter(|s| s.a.rem_euclid(k) == t).collect();
                                if mine.is_empty() {
                                    continue;
                                }
                                work.push((1 + t as usize, Box::new(move || {
                                    for s in mine {
                                        one(own, s)
                                    }
                                })));
                            }
                            pool.run(work);
                        }
                    }
                    self.side = owns.iter().map(|o| (o.items(), o.nodes())).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
                    // reading changed nothing
                    self.check_slot(0, true);
                    self.check_world();
                }
                _ => {
                    self.step(i, st);
                    i += 1;
                }
            }
        }
        // private trees end on other threads than they lived on
        for (t, mut o) in owns.into_iter().enumerate() {
            if self.stop {
                o.abandon();
                continue;
            }
            match &pool {
                None => o.finish(),
                Some(pool) => pool.run(vec![(1 + (t + 1) % k as usize, Box::new(move || o.finish()))]),
            }
        }
        self.side = (0, 0);
        if let Some(pool) = pool {
            let s = pool.stop();
            self.st.yields = s.yields;
            self.st.switches = s.taken.len() as u64;
            self.st.sched_hash = crate::rng::mix(&s.taken.iter().map(|(k, t)| k << 8 | *t as u64).collect::<Vec<_>>());
            self.st.taken = s.taken;
        }
        self.finish()
    }

    /// The tree becomes an owning iterator on one thread and is consumed by others in turn.
    fn handover(&mut self, i: usize, st: &Step, pool: Option<&Pool>, k: i64) {
        ctx().step = i;
        ctx().cur = Op::THand;
        ctx().what = "hand-over".into();
        self.st.ops[Op::THand as usize] += 1;
        self.st.steps += 1;
        self.st.calls += 1;
        if ctx().verbose {
            println!("step {i}: owning iterator handed over between threads (len {})", self.slots[0].m.len());
        }
        let mut tree = Some(raw_btree::RawBTree::new());
        std::mem::swap(&mut self.slots[0].tree, tree.as_mut().unwrap());
        let m = std::mem::take(&mut self.slots[0].m);
        self.slots[0].sorted = true;
        self.slots[0].last = (0, 0, vec![]);
        let n = m.len();
        let mut it = None;
        let (mut lo, mut hi) = (0usize, n);
        let legs = 1 + (st.c % 4) as usize;
        for leg in 0..=legs {
            let t = 1 + ((st.a + leg as i64 * (1 + st.b % 3)) % k) as usize;
            let last = leg == legs;
            let (tree, it, lo, hi, m, script) = (&mut tree, &mut it, &mut lo, &mut hi, &m, &st.script);
            let quiet = Step { fault: Fault::None, ..st.clone() };
            let mut job = move || {
                call(&quiet, n, true, || {
                    if let Some(t) = tree.take() {
                        *it = Some(t.into_iter());
                    }
                    let x = it.as_mut().unwrap();
                    for b in script.iter().skip(leg).step_by(legs + 1) {
                        for _ in 0..1 + (b >> 4) {
                            let front = b & 1 == 0;
                            let got = if front { x.next() } else { x.next_back() };
                            let _o = Out::new();
                            let want = if *lo < *hi {
                                if front {
                                    *lo += 1;
                                    Some(m[*lo - 1])
                                } else {
                                    *hi -= 1;
                                    Some(m[*hi])
                                }
                            } else {
                                None
                            };
                            expect("owning iteration split between threads", got.as_ref().map(seen), want);
                            if x.len() != *hi - *lo {
                                fatal("result", "owning iterator handed over reports a wrong number of remaining items".into());
                            }
                        }
                    }
                    if last {
                        if *lo < *hi {
                            count(Fault::Cancel);
                        }
                        drop(it.take());
                    }
                });
            };
            match pool {
                None => job(),
                Some(p) => p.run(vec![(t, Box::new(job))]),
            }
        }
        let _q = Quiet::new();
        for e in &m {
            if crate::ctx::destroyable(e.uid) {
                fatal("own", format!("item #{} still alive after an owning iterator ended on another thread", e.uid));
            }
        }
    }
}
