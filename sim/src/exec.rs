//! Executes a plan against the real library and judges it with the property's oracles.
use crate::alloc::{self, In};
use crate::ctx::{self, count, ctx, ev, fatal, op, tick, Class, Fault, Injected, Quiet};
use crate::item::Kind;
use crate::item::{cmp_items, cmp_key, Tracked};
use crate::plan::{Op, Plan, Step};
use crate::rng::{mix, Rng};
use raw_btree::node::Offset;
use raw_btree::{Address, Node, RawBTree, Storage, M};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const STRIDE: i64 = 1 << 20;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ent {
    pub key: i64,
    pub uid: u32,
    pub val: u32,
}

pub type Tree<P, S> = RawBTree<Tracked<P>, S>;

pub struct Slot<P: Kind, S: Storage<Tracked<P>>> {
    pub tree: Tree<P, S>,
    /// Reference model: the items in tree order.
    pub m: Vec<Ent>,
    /// False once an inconsistent comparison took part in an update: order is no longer defined.
    pub sorted: bool,
    /// Shape summary of the last walk.
    pub last: (usize, usize, Vec<u8>),
}

/// One entry per kind of operation.
#[derive(Clone)]
pub struct Tab<T>([T; crate::plan::NOPS]);
impl<T: Default + Copy> Default for Tab<T> {
    fn default() -> Self {
        Tab([T::default(); crate::plan::NOPS])
    }
}
impl<T> std::ops::Deref for Tab<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.0
    }
}
impl<T> std::ops::DerefMut for Tab<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        &mut self.0
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub ops: Tab<u64>,
    pub steps: u64,
    pub calls: u64,
    pub states: Vec<u64>,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
    pub foreign: u64,
    pub abandoned: bool,
    /// Heap blocks of the library left at the end.
    pub leaked: i64,
    pub damaged: u64,
    pub max_height: usize,
    pub max_len: usize,
    pub max_cmp_ratio: f64,
    pub max_st_ratio: f64,
    pub max_iter_ratio: f64,
    /// most node accesses per level (single calls) or per item (whole-tree calls), by operation
    pub work: Tab<f64>,
    pub yields: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub taken: Vec<(u64, usize)>,
}

pub struct World<P: Kind, S: Storage<Tracked<P>>> {
    pub slots: Vec<Slot<P, S>>,
    pub held: Vec<Tracked<P>>,
    pub prop: u32,
    pub cur: Op,
    pub dirty: bool,
    pub stop: bool,
    pub st: Stats,
    pub rng: Rng,
    pub sim: bool,
    pub next_val: u32,
    stepno: usize,
    /// What callbacks work on when they make calls of their own.
    pub nest: Box<crate::nest::Nest<P, S>>,
    /// items and nodes of the private trees of threads
    pub side: (usize, usize),
}

pub struct WalkOut<N> {
    pub items: Vec<Ent>,
    pub ids: Vec<N>,
    pub height: usize,
    pub occ: Vec<u8>,
    pub err: Option<(&'static str, String)>,
}

/// Runs library code; an injected panic comes back as its fault, anything else is handled by the
/// caller through the message.
pub enum Caught {
    Injected(Fault),
    Unexpected(String),
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Panics inside the library are recorded, not printed.
pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let _o = alloc::Out::new();
        LAST_PANIC.with(|l| *l.borrow_mut() = i.to_string().replace('\n', " "));
        if !IN_CALL.with(|c| c.get()) {
            if i.location().is_some_and(|l| l.file().starts_with('/') && !l.file().starts_with("/rustc/")) {
                // the library panicked while the tree was being looked at between calls
                crate::ctx::fatal("unwalkable", format!("looking at the tree: {}", LAST_PANIC.with(|l| l.borrow().clone())));
            }
            default(i);
            println!("HARNESS|{}", i.to_string().replace('\n', " "));
            crate::before_exit();
            use std::io::Write;
            let _ = std::io::stdout().flush();
            unsafe { crate::ctx::_exit(99) }
        }
    }));
}

thread_local! {
    static IN_CALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    let was = IN_CALL.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _i = In::new();
        f()
    }));
    IN_CALL.with(|c| c.set(was));
    match r {
        Ok(r) => Ok(r),
        Err(p) => match p.downcast::<Injected>() {
            Ok(i) => Err(Caught::Injected(i.0)),
            Err(p) => {
                let m = LAST_PANIC.with(|l| l.borrow().clone());
                // nothing the library threw may run more code
                match p.downcast::<String>().map(drop).or_else(|p| p.downcast::<&'static str>().map(drop)) {
                    Ok(()) => (),
                    Err(p) => std::mem::forget(p),
                }
                Err(Caught::Unexpected(m))
            }
        },
    }
}

pub fn arm(st: &Step, sim_seed: u64, n: usize, heavy: bool) {
    op(|o| {
        for a in [&o.cmp_arm, &o.alloc_arm, &o.clone_arm, &o.drop_arm, &o.visit_arm, &o.fmt_arm, &o.reent_arm] {
            a.set(0)
        }
        o.byz.set(0);
        o.fired.set(0);
        for c in [&o.cmp_calls, &o.st_calls, &o.clones, &o.drops, &o.allocs, &o.releases] {
            c.set(0)
        }
        o.cmp_budget.set(5_000);
        o.st_budget.set(if heavy { 40_000 + 4_000 * n as u64 } else { 40_000 });
        match st.fault {
            Fault::Cmp => o.cmp_arm.set(st.n),
            Fault::Alloc => o.alloc_arm.set(st.n),
            Fault::Clone => o.clone_arm.set(st.n),
            Fault::Drop => o.drop_arm.set(st.n),
            Fault::Visit => o.visit_arm.set(st.n),
            Fault::Fmt => o.fmt_arm.set(st.n),
            Fault::Reent => o.reent_arm.set(st.n),
            Fault::Byz => {
                o.byz.set(mix(&[sim_seed, st.b as u64, st.n as u64]) | 1);
                o.byz_mode.set((st.n % 12) as u8);
            }
            _ => (),
        }
    });
}

pub fn disarm() {
    op(|o| {
        for a in [&o.cmp_arm, &o.alloc_arm, &o.clone_arm, &o.drop_arm, &o.visit_arm, &o.fmt_arm, &o.reent_arm] {
            a.set(0)
        }
        o.byz.set(0);
        o.cmp_budget.set(u64::MAX);
        o.st_budget.set(u64::MAX);
    });
}

/// Upper bound on the number of levels of a valid tree of `n` items, plus one.
pub fn levels(n: usize) -> f64 {
    3.0 + ((n + 1) as f64).log2() / 2.0
}

pub fn walk<P: Kind, S: Storage<Tracked<P>>>(t: &Tree<P, S>) -> WalkOut<S::Node> {
    let _q = Quiet::new();
    let mut w = WalkOut { items: vec![], ids: vec![], height: 0, occ: vec![], err: None };
    if let Some(root) = t.root() {
        let limit = 4 * t.len() + 64;
        let mut leaf_depth = None;
        rec(t, root, None, 1, limit, &mut leaf_depth, &mut w);
        w.height = leaf_depth.unwrap_or(0);
    }
    for i in 1..w.items.len() {
        if w.items[i - 1].key >= w.items[i].key {
            if w.err.is_none() {
                w.err = Some((
                    "order",
                    format!("items not strictly increasing at in-order position {i}: key {} then {}", w.items[i - 1].key, w.items[i].key),
                ));
            }
            break;
        }
    }
    w
}

/// Compares an exported text with the tree.
pub fn faithful<P: Kind, S: Storage<Tracked<P>>>(t: &Tree<P, S>, w: &WalkOut<S::Node>, text: &[u8]) -> Result<(), String>
where
    S::Node: Into<usize>,
{
    let _q = Quiet::new();
    let nodes: Vec<crate::dot::NodeDesc> = w
        .ids
        .iter()
        .map(|id| {
            let node = unsafe { t.node(*id) };
            crate::dot::NodeDesc {
                id: (*id).into(),
                parent: node.parent().map(|p| p.into()),
                items: (0..node.item_count())
                    .filter_map(|i| node.item(Offset::from(i)))
                    .map(|i| format!("k{}u{}", i.key, i.uid))
                    .collect(),
                children: node.children().map(|c| c.into()).collect(),
            }
        })
        .collect();
    crate::dot::judge(text, &nodes)
}

/// What stepping with `next_back_address` (`previous_front_address` when `back`) from either end
/// meets: every item, and the back (front) of every node when it is left.
fn steps<P: Kind, S: Storage<Tracked<P>>>(t: &Tree<P, S>, id: S::Node, back: bool, out: &mut Vec<(S::Node, Option<Ent>)>) {
    let node = unsafe { t.node(id) };
    let n = node.item_count();
    let kids: Vec<S::Node> = node.children().collect();
    for j in 0..=n {
        let j = if back { n - j } else { j };
        if let Some(c) = kids.get(j) {
            steps(t, *c, back, out);
        }
        let i = if back { j.checked_sub(1) } else { Some(j) };
        if let Some(it) = i.and_then(|i| node.item(Offset::from(i))) {
            out.push((id, Some(Ent { key: it.key, uid: it.uid, val: it.val })));
        }
    }
    out.push((id, None));
}

/// Number of items met before entering and once leaving the node `find`.
fn extent<P: Kind, S: Storage<Tracked<P>>>(t: &Tree<P, S>, id: S::Node, find: S::Node, count: &mut usize) -> Option<(usize, usize)> {
    let node = unsafe { t.node(id) };
    let lo = *count;
    let kids: Vec<S::Node> = node.children().collect();
    for j in 0..=node.item_count() {
        if let Some(c) = kids.get(j) {
            if let Some(r) = extent(t, *c, find, count) {
                return Some(r);
            }
        }
        if j < node.item_count() {
            *count += 1;
        }
    }
    (id == find).then_some((lo, *count))
}

fn rec<P: Kind, S: Storage<Tracked<P>>>(
    t: &Tree<P, S>,
    id: S::Node,
    parent: Option<S::Node>,
    depth: usize,
    limit: usize,
    leaf_depth: &mut Option<usize>,
    w: &mut WalkOut<S::Node>,
) {
    macro_rules! err {
        ($c:expr, $($a:tt)*) => { if w.err.is_none() || w.err.as_ref().unwrap().0 == "order" { w.err = Some(($c, format!($($a)*))) } }
    }
    if w.ids.len() > limit || depth > 64 {
        err!("shape", "cyclic or unbounded structure");
        return;
    }
    w.ids.push(id);
    let node: &Node<Tracked<P>, S> = unsafe { t.node(id) };
    let n = node.item_count();
    w.occ.push(n.min(255) as u8);
    if node.parent() != parent {
        err!("shape", "wrong parent link at depth {depth} (is {:?})", node.parent().is_some());
    } else if let Some(p) = node.parent() {
        // presents the identifier to the storage: a stale one is caught there
        let _ = unsafe { t.node(p) };
    }
    let root = parent.is_none();
    match node {
        Node::Leaf(l) => {
            if n > M {
                err!("shape", "leaf holds {n} items");
            }
            if (!root && n < M / 2 - 1) || n == 0 {
                err!("shape", "{} holds only {n} items", if root { "root leaf" } else { "leaf" });
            }
            match leaf_depth {
                None => *leaf_depth = Some(depth),
                Some(d) if *d != depth => err!("shape", "leaves at depths {d} and {depth}"),
                _ => (),
            }
            if node.children().next().is_some() || node.child_count() != 0 {
                err!("shape", "leaf has children");
            }
            for it in l.iter() {
                it.check("walk");
                w.items.push(Ent { key: it.key, uid: it.uid, val: it.val });
            }
        }
        Node::Internal(_) => {
            if n > M - 1 {
                err!("shape", "internal node holds {n} items");
            }
            if (!root && n < M / 2 - 1) || n == 0 {
                err!("shape", "{} holds only {n} items", if root { "internal root" } else { "internal node" });
            }
            let ch: Vec<S::Node> = node.children().take(64).collect();
            if ch.len() != n + 1 || node.child_count() != n + 1 {
                err!("shape", "internal node with {n} items has {} children", ch.len());
            }
            if node.child_id_opt(ch.len()).is_some() {
                err!("shape", "child identifier past the last child");
            }
            let ws: Vec<_> = node
                .children_with_separators()
                .take(64)
                .map(|(l, c, r)| (l.map(|x| x.uid), c, r.map(|x| x.uid)))
                .collect();
            if ws.len() != ch.len() {
                err!("shape", "children and children-with-separators disagree");
            }
            for (i, c) in ch.iter().enumerate() {
                if node.child_index(*c) != Some(i) {
                    err!("shape", "child {i} is indexed as {:?}", node.child_index(*c));
                }
                if node.child_id(i) != *c || node.child_id_opt(i) != Some(*c) {
                    err!("shape", "child identifier {i} disagrees");
                }
                let left = if i > 0 { node.item((i - 1).into()).map(|x| x.uid) } else { None };
                let right = node.item(i.into()).map(|x| x.uid);
                let (sl, sr) = node.separators(i);
                if (sl.map(|x| x.uid), sr.map(|x| x.uid)) != (left, right) {
                    err!("shape", "separators of child {i} disagree");
                }
                if let Some(x) = ws.get(i) {
                    if (x.0, x.2) != (left, right) || x.1 != *c {
                        err!("shape", "children-with-separators entry {i} disagrees");
                    }
                }
                rec(t, *c, Some(id), depth + 1, limit, leaf_depth, w);
                if let Some(it) = node.item(i.into()) {
                    it.check("walk");
                    w.items.push(Ent { key: it.key, uid: it.uid, val: it.val });
                } else if i < n {
                    err!("shape", "internal node lacks item {i}");
                }
            }
        }
    }
}

pub const CONTENT: u32 = 1;
pub const SHAPE: u32 = 2;
pub const OWN: u32 = 4;
pub const STORE: u32 = 8;
pub const BOUND: u32 = 16;
pub const LEAK: u32 = 32;

pub fn mask(prop: u32) -> u32 {
    match prop {
        1 => CONTENT,
        2 => CONTENT | SHAPE | OWN,
        3 => CONTENT | SHAPE | OWN | STORE,
        4 => SHAPE,
        5 => OWN | LEAK,
        6 => STORE | LEAK | CONTENT,
        7 => CONTENT,
        8 => CONTENT,
        9 => CONTENT | SHAPE | OWN,
        10 => CONTENT | SHAPE | OWN,
        11 | 16 | 17 | 21 | 22 => 0,
        12 => CONTENT,
        13 => CONTENT | SHAPE | OWN | LEAK,
        14 => CONTENT | SHAPE,
        15 => BOUND,
        _ => CONTENT | SHAPE | OWN | STORE | LEAK,
    }
}

impl<P: Kind, S: Storage<Tracked<P>>> World<P, S>
where
    S::Node: Into<usize>,
{
    pub fn new(p: &Plan) -> Self {
        let prop = p.prop[1..].parse().unwrap_or(0);
        let mut slots = Vec::new();
        for _ in 0..p.slots.max(1) {
            slots.push(Slot { tree: RawBTree::new(), m: vec![], sorted: true, last: (0, 0, vec![]) });
        }
        World {
            slots,
            held: vec![],
            prop,
            cur: Op::Get,
            dirty: false,
            stop: false,
            st: Stats::default(),
            rng: Rng::new(p.storage_seed ^ 0xABCD),
            sim: p.storage == "sim",
            next_val: 1,
            stepno: 0,
            nest: Box::new(crate::nest::Nest::new(p)),
            side: (0, 0),
        }
    }

    pub fn bad(&mut self, class: &str, msg: String) {
        if ctx::concerns(class) {
            fatal(class, msg)
        }
        if ctx().verbose {
            println!("    (foreign: {class}: {msg})");
        }
        self.st.foreign += 1;
        self.dirty = true;
        if class == "panic" || self.st.foreign > 50 {
            self.stop = true;
        }
    }

    fn probe(&mut self, p: &'static str) {
        *self.st.probes.entry(p).or_insert(0) += 1;
    }

    fn len(&self, s: usize) -> usize {
        self.slots[s].m.len()
    }

    /// Runs a library call of the current step on slot `s` (used for budgets and work bounds).
    fn call<R>(&mut self, st: &Step, s: usize, heavy: bool, f: impl FnOnce(&mut Slot<P, S>) -> R) -> Result<R, Fault> {
        self.st.calls += 1;
        let n = self.slots[s].tree.len().max(self.slots[s].m.len());
        arm(st, ctx().storage_seed, n, heavy);
        if st.fault == Fault::Reent {
            let x = &self.slots[s];
            let shared = match self.cur {
                Op::Get | Op::Nav | Op::Walk | Op::Iter | Op::Clone | Op::Dot => true,
                Op::Ends => st.c % 2 == 0,
                Op::Visit => st.c % 2 == 0,
                _ => false,
            };
            self.nest.begin(if shared && x.sorted { Some((&x.tree, &x.m)) } else { None });
            ctx().nest = Some((crate::nest::hook::<P, S>, &mut *self.nest as *mut _ as *mut ()));
        }
        let slot = &mut self.slots[s];
        let r = lib(|| f(slot));
        disarm();
        ctx().nest = None;
        let (c, a, fired) = op(|o| (o.cmp_calls.get(), o.st_calls.get(), o.fired.get()));
        ev(0xCA11 ^ (c << 20) ^ (a << 32) ^ fired as u64);
        self.bounds(n, c, a, heavy);
        match r {
            Ok(r) => Ok(r),
            Err(Caught::Injected(f)) => Err(f),
            Err(Caught::Unexpected(m)) => {
                if self.prop == 4 && !heavy {
                    // the panic is another property's matter, but is the tree still valid?
                    if let Some((c, m)) = walk(&self.slots[s].tree).err {
                        if c == "shape" || self.slots[s].sorted {
                            self.bad(c, m);
                        }
                    }
                }
                self.bad("panic", format!("{} panicked: {m}", self.cur.name()));
                Err(Fault::None)
            }
        }
    }

    fn bounds(&mut self, n: usize, c: u64, a: u64, heavy: bool) {
        let k = self.cur as usize;
        if heavy {
            if n > 16 {
                self.st.work[k] = self.st.work[k].max(a as f64 / n as f64);
            }
            return;
        }
        let l = levels(n);
        if !matches!(self.cur, Op::Clone | Op::Into | Op::Iter | Op::IterM | Op::Visit | Op::Walk) {
            self.st.work[k] = self.st.work[k].max(a as f64 / l);
        }
        let (rc, ra) = (c as f64 / l, a as f64 / l);
        if rc > self.st.max_cmp_ratio {
            self.st.max_cmp_ratio = rc
        }
        if ra > self.st.max_st_ratio {
            self.st.max_st_ratio = ra
        }
        if self.prop == 15 {
            if rc > 16.0 {
                self.bad("bound", format!("{c} comparisons on a tree of {n} items"));
            }
            if ra > 40.0 {
                self.bad("bound", format!("{a} node accesses on a tree of {n} items"));
            }
        }
    }

    // ---- model helpers -------------------------------------------------

    fn pos(&self, s: usize, key: i64) -> Result<usize, usize> {
        self.slots[s].m.binary_search_by(|e| e.key.cmp(&key))
    }

    /// Key chosen by selector and mode, as a function of the model.
    fn pick_key(&self, s: usize, sel: i64, mode: i64) -> i64 {
        let m = &self.slots[s].m;
        let sel_u = (sel as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 16;
        let n = m.len();
        match mode {
            1 if n > 0 => m[sel_u as usize % n].key,
            2 if n > 0 => {
                let i = sel_u as usize % n;
                let lo = m[i].key;
                let hi = if i + 1 < n { m[i + 1].key } else { lo + 2 * STRIDE };
                lo + (hi - lo) / 2
            }
            3 if n > 0 => m[0].key - STRIDE,
            4 if n > 0 => m[n - 1].key + STRIDE,
            5 => (sel_u as i64 % 64) * STRIDE,
            _ => (sel_u as i64 % (4 * n as i64 + 40)) * STRIDE,
        }
    }

    fn new_item(&mut self, key: i64) -> Tracked<P> {
        self.next_val += 1;
        Tracked::new(key, self.next_val)
    }

    fn is_live(&self, uid: u32) -> bool {
        ctx::destroyable(uid)
    }

    fn may_leak(&self, uid: u32) {
        let c = ctx();
        let r = &mut c.items[uid as usize];
        if r.class == Class::Normal {
            r.class = Class::MayLeak;
            if r.live {
                c.live_normal -= 1;
            }
        }
    }

    /// The item passed to an aborted insertion must be gone.
    fn consumed(&mut self, uid: u32, what: &str) {
        if self.is_live(uid) {
            self.bad("own", format!("item #{uid} passed to an aborted {what} was not destroyed"));
        }
    }

    fn keep_or_drop(&mut self, it: Tracked<P>) {
        it.check("item returned to the caller");
        if self.held.len() < 24 && self.rng.below(3) == 0 {
            self.held.push(it);
        } else {
            drop(it);
        }
        if self.held.len() >= 24 {
            self.held.remove(0);
        }
    }

    // ---- keyed operations ------------------------------------------------

    fn insert(&mut self, st: &Step, s: usize, key: i64) {
        let it = self.new_item(key);
        let (uid, val) = (it.uid, it.val);
        let r = self.call(st, s, false, |x| x.tree.insert(cmp_items, it));
        ev(0x1115 ^ (key as u64) << 1);
        match r {
            Ok(old) => {
                ev(old.as_ref().map(|o| o.uid as u64).unwrap_or(u64::MAX));
                if st.fault == Fault::Byz || !self.slots[s].sorted {
                    self.slots[s].sorted = false;
                    if let Some(o) = old {
                        o.check("item returned by insert");
                        match self.slots[s].m.iter().position(|e| e.uid == o.uid) {
                            Some(i) => {
                                self.slots[s].m[i] = Ent { key, uid, val };
                            }
                            None => self.bad("result", "insert returned an item that was not stored".into()),
                        }
                        self.keep_or_drop(o);
                    } else {
                        self.slots[s].m.push(Ent { key, uid, val });
                    }
                    return;
                }
                match self.pos(s, key) {
                    Ok(i) => {
                        let want = self.slots[s].m[i];
                        match &old {
                            Some(o) if o.uid == want.uid && o.key == want.key && o.val == want.val => (),
                            Some(o) => { let m = format!("insert of present key {key} returned item #{} instead of #{}", o.uid, want.uid); self.bad("result", m) }
                            None => self.bad("result", format!("insert of present key {key} returned nothing")),
                        }
                        self.slots[s].m[i] = Ent { key, uid, val };
                    }
                    Err(i) => {
                        if let Some(o) = &old {
                            let m = format!("insert of absent key {key} returned item #{} (key {})", o.uid, o.key);
                            self.bad("result", m);
                        }
                        self.slots[s].m.insert(i, Ent { key, uid, val });
                    }
                }
                if let Some(o) = old {
                    self.keep_or_drop(o);
                }
            }
            Err(_) => self.consumed(uid, "insert"),
        }
    }

    fn remove(&mut self, st: &Step, s: usize, key: i64) {
        let r = self.call(st, s, false, |x| x.tree.remove(cmp_key, &key));
        if let Ok(got) = r {
            ev(got.as_ref().map(|o| o.uid as u64).unwrap_or(u64::MAX));
            if st.fault == Fault::Byz || !self.slots[s].sorted {
                if let Some(o) = got {
                    o.check("item returned by remove");
                    match self.slots[s].m.iter().position(|e| e.uid == o.uid) {
                        Some(i) => {
                            self.slots[s].m.remove(i);
                        }
                        None => self.bad("result", "remove returned an item that was not stored".into()),
                    }
                    self.keep_or_drop(o);
                }
                return;
            }
            match self.pos(s, key) {
                Ok(i) => {
                    let want = self.slots[s].m.remove(i);
                    match &got {
                        Some(o) if o.uid == want.uid && o.key == want.key && o.val == want.val => (),
                        Some(o) => { let m = format!("remove of key {key} returned item #{} (key {}) instead of #{}", o.uid, o.key, want.uid); self.bad("result", m) }
                        None => self.bad("result", format!("remove of present key {key} returned nothing")),
                    }
                }
                Err(_) => {
                    if let Some(o) = &got {
                        let m = format!("remove of absent key {key} returned item #{} (key {})", o.uid, o.key);
                        self.bad("result", m);
                    }
                }
            }
            if let Some(o) = got {
                self.keep_or_drop(o);
            }
        }
    }

    fn seen(it: &Tracked<P>, what: &str) -> Ent {
        it.check(what);
        Ent { key: it.key, uid: it.uid, val: it.val }
    }

    fn expect(&mut self, what: &str, s: usize, got: Option<Ent>, want: Option<Ent>) {
        ev(got.map(|g| g.uid as u64).unwrap_or(u64::MAX));
        if !self.slots[s].sorted && self.cur != Op::Iter && self.cur != Op::IterM && self.cur != Op::Into {
            if let Some(g) = got {
                if !self.slots[s].m.iter().any(|e| *e == g) {
                    self.bad("result", format!("{what} returned an item that is not stored"));
                }
            }
            return;
        }
        if got != want {
            let f = |e: Option<Ent>| match e {
                Some(e) => format!("item #{} (key {}, value {})", e.uid, e.key, e.val),
                None => "nothing".into(),
            };
            self.bad("result", format!("{what} returned {} instead of {}", f(got), f(want)));
        }
    }

    fn get(&mut self, st: &Step, s: usize, key: i64) {
        let r = self.call(st, s, false, |x| x.tree.get(cmp_key, &key).map(|i| Self::seen(i, "item returned by get")));
        if let Ok(got) = r {
            if st.fault == Fault::Byz {
                if let Some(g) = got {
                    if !self.slots[s].m.iter().any(|e| *e == g) {
                        self.bad("result", "get returned an item that is not stored".into());
                    }
                }
                return;
            }
            let want = self.pos(s, key).ok().map(|i| self.slots[s].m[i]);
            self.expect(&format!("get of key {key}"), s, got, want);
        }
    }

    fn get_mut(&mut self, st: &Step, s: usize, key: i64) {
        self.next_val += 1;
        let nv = self.next_val;
        let r = self.call(st, s, false, |x| {
            x.tree.get_mut(cmp_key, &key).map(|i| {
                let e = Self::seen(i, "item returned by get_mut");
                i.val = nv;
                e
            })
        });
        if let Ok(got) = r {
            if st.fault == Fault::Byz || !self.slots[s].sorted {
                if let Some(g) = got {
                    match self.slots[s].m.iter().position(|e| *e == g) {
                        Some(i) => self.slots[s].m[i].val = nv,
                        None => self.bad("result", "get_mut returned an item that is not stored".into()),
                    }
                }
                return;
            }
            let p = self.pos(s, key).ok();
            let want = p.map(|i| self.slots[s].m[i]);
            self.expect(&format!("get_mut of key {key}"), s, got, want);
            if let Some(i) = p {
                self.slots[s].m[i].val = nv;
            }
        }
    }

    /// Lookup through the nodes' own methods.
    fn node_get(&mut self, st: &Step, s: usize, key: i64) {
        let way = ((st.b as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 33) % 4;
        self.next_val += 1;
        let nv = self.next_val;
        let mut off = None;
        let r = self.call(st, s, false, |x| unsafe {
            let mut id = x.tree.root()?;
            loop {
                match way {
                    0 => match x.tree.node(id).get(cmp_key, &key) {
                        Ok(r) => return r.map(|i| Self::seen(i, "item returned by a node's get")),
                        Err(c) => id = c,
                    },
                    1 => match x.tree.node_mut(id).get_mut(cmp_key, &key) {
                        Ok(r) => {
                            return r.map(|i| {
                                let e = Self::seen(i, "item returned by a node's get_mut");
                                i.val = nv;
                                e
                            })
                        }
                        Err(c) => id = *c,
                    },
                    2 => {
                        let n = x.tree.node(id);
                        match n.offset_of(cmp_key, &key) {
                            Ok(o) => return n.item(o).map(|i| Self::seen(i, "item at the offset returned by offset_of")),
                            Err((_, None)) => return None,
                            Err((i, Some(c))) => {
                                if n.child_id(i) != c || n.child_index(c) != Some(i) {
                                    let _o = alloc::Out::new();
                                    off = Some("offset_of designates a child at another index");
                                }
                                id = c
                            }
                        }
                    }
                    _ => {
                        // the separators of a child decide
                        let n = x.tree.node(id);
                        let mut down = None;
                        let mut at = None;
                        for (i, (min, child, max)) in n.children_with_separators().enumerate() {
                            let _o = alloc::Out::new();
                            let ends = n.separators(i);
                            let same = |a: Option<&Tracked<P>>, b: Option<&Tracked<P>>| a.map(|x| x as *const _) == b.map(|x| x as *const _);
                            if !same(min, ends.0) || !same(max, ends.1) || n.child_id_opt(i) != Some(child) {
                                off = Some("separators and children_with_separators disagree");
                            }
                            if min.is_some_and(|m| m.key == key) {
                                at = min
                            }
                            if min.is_none_or(|m| m.key < key) && max.is_none_or(|m| key < m.key) {
                                down = Some(child)
                            }
                        }
                        if let Some(i) = at {
                            return Some(Self::seen(i, "separator"));
                        }
                        match down {
                            Some(c) => id = c,
                            None => {
                                let _o = alloc::Out::new();
                                let k = n.item_count();
                                return (0..k).filter_map(|i| n.item(i.into())).map(|i| Self::seen(i, "item of a leaf")).find(|e| e.key == key);
                            }
                        }
                    }
                }
            }
        });
        let Ok(got) = r else { return };
        if let Some(m) = off {
            self.bad("result", m.into());
        }
        if st.fault == Fault::Byz || !self.slots[s].sorted {
            if let Some(g) = got {
                match self.slots[s].m.iter().position(|e| *e == g) {
                    Some(i) => {
                        if way == 1 {
                            self.slots[s].m[i].val = nv
                        }
                    }
                    None => self.bad("result", "a node's get returned an item that is not stored".into()),
                }
            }
            return;
        }
        let p = self.pos(s, key).ok();
        let want = p.map(|i| self.slots[s].m[i]);
        self.expect(&format!("lookup of key {key} through the nodes"), s, got, want);
        if let (Some(i), 1) = (p, way) {
            self.slots[s].m[i].val = nv;
        }
    }

    fn ends(&mut self, st: &Step, s: usize) {
        let (f, l) = (self.slots[s].m.first().copied(), self.slots[s].m.last().copied());
        if st.c % 2 == 0 {
            if let Ok((a, b)) = self.call(st, s, false, |x| {
                (x.tree.first().map(|i| Self::seen(i, "first")), x.tree.last().map(|i| Self::seen(i, "last")))
            }) {
                self.expect("first", s, a, f);
                self.expect("last", s, b, l);
            }
        } else {
            self.next_val += 2;
            let nv = self.next_val;
            if let Ok((a, b)) = self.call(st, s, false, |x| {
                let a = x.tree.first_mut().map(|i| {
                    let e = Self::seen(i, "first_mut");
                    i.val = nv;
                    e
                });
                let b = x.tree.last_mut().map(|i| {
                    let e = Self::seen(i, "last_mut");
                    i.val = nv + 1;
                    e
                });
                (a, b)
            }) {
                self.expect("first_mut", s, a, f);
                let n = self.len(s);
                if n > 0 {
                    self.slots[s].m[0].val = nv;
                    let want = self.slots[s].m[n - 1];
                    self.expect("last_mut", s, b, Some(want));
                    self.slots[s].m[n - 1].val = nv + 1;
                } else {
                    self.expect("last_mut", s, b, None);
                }
                self.next_val += 1;
            }
        }
    }

    fn fill(&mut self, st: &Step, s: usize) {
        let mut r = Rng::new(st.c as u64 ^ 0xF111);
        let pat = st.c % 8;
        let start = r.range(0, 2000);
        for i in 0..st.b.clamp(0, 100_000) {
            let key = match pat {
                0 => self.pick_key(s, 0, 4),
                1 => self.pick_key(s, 0, 3),
                2 => self.pick_key(s, 0, 3 + (i & 1)),
                3 => (start + i) * STRIDE,
                4 => (start - i) * STRIDE,
                5 => {
                    // halve a random gap while it lasts
                    let k = self.pick_key(s, r.next() as i64, 2);
                    if self.pos(s, k).is_ok() { self.pick_key(s, 0, 4) } else { k }
                }
                _ => r.range(0, 4 * st.b.max(8)) * STRIDE,
            };
            if self.stop || self.dirty {
                return;
            }
            self.insert(st, s, key);
        }
    }

    fn drain(&mut self, st: &Step, s: usize) {
        let mut r = Rng::new(st.c as u64 ^ 0xD4A1);
        let pat = st.c % 8;
        let mid = r.below(1000) as usize;
        for i in 0..st.b.clamp(0, 100_000) {
            let n = self.len(s);
            if n == 0 || self.stop || self.dirty {
                return;
            }
            let idx = match pat {
                0 => 0,
                1 => n - 1,
                2 => if i & 1 == 0 { 0 } else { n - 1 },
                3 => (mid * n / 1000).min(n - 1),
                4 => n / 2,
                5 => (i as usize * 5) % n,
                _ => r.below(n as u64) as usize,
            };
            let key = self.slots[s].m[idx].key;
            self.remove(st, s, key);
        }
    }

    // ---- whole-tree operations --------------------------------------------

    fn clear(&mut self, st: &Step, s: usize) {
        let r = self.call(st, s, true, |x| x.tree.clear());
        self.emptied(s, r);
    }

    /// After clear/drop: everything gone, or (destructor panic) whatever is left may leak.
    fn emptied(&mut self, s: usize, r: Result<(), Fault>) {
        let m = std::mem::take(&mut self.slots[s].m);
        match r {
            Ok(()) => {
                for e in &m {
                    if self.is_live(e.uid) && ctx().items[e.uid as usize].class == Class::Normal {
                        self.bad("own", format!("item #{} still alive after its tree was emptied", e.uid));
                        self.may_leak(e.uid);
                    }
                }
            }
            Err(_) => {
                ctx().leak_tol = true;
                for e in &m {
                    if self.is_live(e.uid) {
                        self.may_leak(e.uid);
                    }
                }
            }
        }
        self.slots[s].sorted = true;
        self.slots[s].last = (0, 0, vec![]);
    }

    fn drop_tree(&mut self, st: &Step, s: usize) {
        let mut t = Some(RawBTree::new());
        std::mem::swap(&mut self.slots[s].tree, t.as_mut().unwrap());
        // a tree that goes out of scope, at times because its user panics
        let unwind = st.fault == Fault::None && st.b.rem_euclid(3) == 1;
        let r = self.call(st, s, true, |_| {
            if unwind {
                count(Fault::Consumer);
                op(|o| o.unwinding.set(true));
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let _t = t.take();
                    std::panic::resume_unwind(Box::new(()))
                }));
                op(|o| o.unwinding.set(false));
            } else {
                drop(t.take())
            }
        });
        self.emptied(s, r);
    }

    fn forget(&mut self, st: &Step, s: usize) {
        for e in &self.slots[s].m {
            let c = ctx();
            let r = &mut c.items[e.uid as usize];
            if r.class == Class::Normal && r.live {
                r.class = Class::Forgotten;
                c.live_normal -= 1;
            }
        }
        let _ = self.call(st, s, true, |x| x.tree.forget());
        self.slots[s].m.clear();
        self.slots[s].sorted = true;
        self.slots[s].last = (0, 0, vec![]);
    }

    fn clone_tree(&mut self, st: &Step, s: usize, d: usize) {
        let start = ctx().items.len() as u32;
        let r = if s != d && st.c % 3 == 1 {
            // over the previous content of the destination, in one call
            let mut dst = RawBTree::new();
            std::mem::swap(&mut self.slots[d].tree, &mut dst);
            match self.call(st, s, true, |x| dst.clone_from(&x.tree)) {
                Ok(()) => Ok(dst),
                Err(f) => {
                    // whatever the destination holds now, it is a tree, and nothing else is alive
                    ctx().leak_tol = true;
                    let w = walk(&dst);
                    if let Some((c, m)) = w.err {
                        if c == "shape" || (self.slots[s].sorted && self.slots[d].sorted) {
                            self.bad(c, format!("destination of an aborted clone_from is malformed: {m}"));
                        }
                    }
                    if dst.len() != w.items.len() {
                        self.bad("len", format!("destination of an aborted clone_from reports {} items but holds {}", dst.len(), w.items.len()));
                    }
                    let kept: std::collections::BTreeSet<u32> = w.items.iter().map(|e| e.uid).collect();
                    if kept.len() != w.items.len() {
                        self.bad("own", "destination of an aborted clone_from holds an item twice".into());
                    }
                    let old_m = std::mem::replace(&mut self.slots[d].m, w.items);
                    self.slots[d].tree = dst;
                    self.slots[d].sorted &= self.slots[s].sorted;
                    self.slots[d].last = (0, 0, vec![]);
                    for e in old_m {
                        if self.is_live(e.uid) && !kept.contains(&e.uid) && ctx().items[e.uid as usize].class == Class::Normal {
                            self.bad("own", format!("item #{} of the destination of an aborted clone_from is lost", e.uid));
                            self.may_leak(e.uid);
                        }
                    }
                    for uid in start..ctx().items.len() as u32 {
                        if self.is_live(uid) && !kept.contains(&uid) {
                            self.may_leak(uid);
                        }
                    }
                    ctx().cloned = true;
                    let _ = f;
                    return;
                }
            }
        } else {
            self.call(st, s, true, |x| x.tree.clone())
        };
        ctx().cloned = true;
        match r {
            Ok(t) => {
                let w = walk(&t);
                let want: Vec<(i64, u32)> = self.slots[s].m.iter().map(|e| (e.key, e.val)).collect();
                let got: Vec<(i64, u32)> = w.items.iter().map(|e| (e.key, e.val)).collect();
                if got != want {
                    self.bad("clone", format!("clone holds {} items that differ from the original's {}", got.len(), want.len()));
                }
                if t.len() != want.len() {
                    self.bad("clone", format!("clone reports length {} instead of {}", t.len(), want.len()));
                }
                if w.items.iter().any(|e| e.uid < start) {
                    self.bad("clone", "clone shares an item with the original".into());
                }
                if let Some((c, m)) = w.err {
                    if c == "shape" || self.slots[s].sorted {
                        self.bad("clone", format!("clone is malformed: {m}"));
                    }
                }
                let made = ctx().items.len() as u32 - start - if st.fault == Fault::Reent { self.nest.made } else { 0 };
                if made as usize != want.len() {
                    self.bad("clone", format!("{made} copies made for {} items", want.len()));
                }
                let old = std::mem::replace(&mut self.slots[d].tree, t);
                let old_m = std::mem::replace(&mut self.slots[d].m, w.items);
                self.slots[d].sorted = self.slots[s].sorted;
                self.slots[d].last = (0, 0, vec![]);
                // the previous content of the destination is destroyed now
                self.cur = Op::Clone;
                ctx().cur = Op::Clone;
                let quiet = Step { fault: Fault::None, ..st.clone() };
                let mut old = Some(old);
                let r = self.call(&quiet, d, true, |_| drop(old.take()));
                if r.is_ok() {
                    for e in old_m {
                        if self.is_live(e.uid) && ctx().items[e.uid as usize].class == Class::Normal {
                            self.bad("own", format!("item #{} still alive after its tree was destroyed", e.uid));
                            self.may_leak(e.uid);
                        }
                    }
                }
            }
            Err(_) => {
                ctx().leak_tol = true;
                for uid in start..ctx().items.len() as u32 {
                    if self.is_live(uid) {
                        self.may_leak(uid);
                    }
                }
            }
        }
    }

    // ---- iteration ----------------------------------------------------------

    fn iter(&mut self, st: &Step, s: usize) {
        let n = self.len(s);
        let mut problems: Vec<String> = vec![];
        let mut cancelled = 0;
        let script = st.script.clone();
        let fin = st.c.max(0);
        let mut obs: Vec<(String, Option<Ent>, Option<Ent>)> = vec![];
        let r = self.call(st, s, true, |x| {
            let m = &x.m;
            let _o = alloc::Out::new();
            let mut cur = vec![(libr(|| x.tree.iter()), 0usize, n)];
            macro_rules! step {
                ($k:expr, $front:expr) => {{
                    ctx::reent();
                    let (it, lo, hi) = &mut cur[$k];
                    let got = if $front { libr(|| it.next()) } else { libr(|| it.next_back()) };
                    let got = got.map(|i| Self::seen(i, "item yielded by iter"));
                    let want = if *lo < *hi {
                        if $front { *lo += 1; Some(m[*lo - 1]) } else { *hi -= 1; Some(m[*hi]) }
                    } else { None };
                    if got != want { obs.push((format!("iter {}", if $front { "next" } else { "next_back" }), got, want)); }
                    let left = *hi - *lo;
                    if it.size_hint() != (left, Some(left)) || it.len() != left {
                        problems.push(format!("iterator reports {:?} remaining items, {} expected", it.size_hint(), left));
                    }
                    got.is_some() && problems.is_empty() && obs.is_empty()
                }};
            }
            for b in &script {
                let k = (*b >> 4) as usize % cur.len();
                match b & 15 {
                    0..=4 => { step!(k, true); }
                    5..=9 => { step!(k, false); }
                    10 | 11 => if cur.len() < 4 {
                        let c = if b & 1 == 0 { let t = &cur[k]; (libr(|| t.0.clone()), t.1, t.2) } else { cur[k] };
                        cur.push(c);
                    },
                    12 => if cur.len() > 1 { let c = cur.remove(k); if c.1 < c.2 { cancelled += 1; } },
                    13 => { while step!(k, true) {} step!(k, false); step!(k, true); }
                    14 => { while step!(k, false) {} step!(k, true); step!(k, false); }
                    _ => {
                        let (it, lo, hi) = &mut cur[k];
                        let (front, j) = (b & 64 == 0, (*b >> 4) as usize % 4);
                        let got = if front { libr(|| it.nth(j)) } else { libr(|| it.nth_back(j)) };
                        let got = got.map(|i| Self::seen(i, "item yielded by nth"));
                        let (want, _) = nth_model(m, lo, hi, front, j);
                        if got != want { obs.push((format!("iter {}({j})", if front { "nth" } else { "nth_back" }), got, want)); }
                        let left = *hi - *lo;
                        if it.size_hint() != (left, Some(left)) {
                            problems.push(format!("iterator reports {:?} remaining items after nth, {left} expected", it.size_hint()));
                        }
                    }
                }
                if !problems.is_empty() || !obs.is_empty() { break; }
            }
            if problems.is_empty() && obs.is_empty() && fin > 0 {
                for (j, (it, lo, hi)) in cur.drain(..).enumerate() {
                    let kind = (fin as usize + j * 5) % FINISH;
                    let k = (fin as usize / FINISH) % 7;
                    let (want, wn) = finish_model(m, lo, hi, kind, k);
                    let mut got = vec![];
                    let n = libr(|| finish(it, kind, k, |i| { let _o = alloc::Out::new(); ctx::reent(); got.push(Self::seen(i, "item yielded by iter")); }));
                    if got != want || n != wn {
                        problems.push(format!("iter {}({k}) of {lo}..{hi} returned {n:?} instead of {wn:?}: {}", FINISH_NAMES[kind], diff(&got, &want)));
                        break;
                    }
                }
            }
            cancelled += cur.iter().filter(|c| c.1 < c.2).count() as u64;
        });
        let _ = r;
        ctx().counts[Fault::Cancel as usize] += cancelled;
        for (w, g, e) in obs {
            self.expect(&w, s, g, e);
        }
        for p in problems {
            self.bad("result", p);
        }
        let a = op(|o| o.st_calls.get());
        if script.len() == 1 {
            self.iter_bound("iterate", a, n);
        }
    }

    /// A full iteration costs a number of node accesses proportional to the number of items.
    fn iter_bound(&mut self, what: &str, a: u64, n: usize) {
        if self.prop == 15 && n > 0 {
            let ratio = a as f64 / n as f64;
            if n > 16 && ratio > self.st.max_iter_ratio {
                self.st.max_iter_ratio = ratio;
            }
            if a > 24 * n as u64 + 400 {
                self.bad("bound", format!("{a} node accesses to {what} over {n} items"));
            }
        }
    }

    fn iter_mut(&mut self, st: &Step, s: usize) {
        let n = self.len(s);
        self.next_val += n as u32 + 1;
        let nv = self.next_val;
        let script = st.script.clone();
        let mut obs: Vec<(String, Option<Ent>, Option<Ent>)> = vec![];
        let mut problems: Vec<String> = vec![];
        let mut written: Vec<usize> = vec![];
        let mut left_over = 0;
        let fin = st.c.max(0);
        let _ = self.call(st, s, true, |x| {
            let _o = alloc::Out::new();
            let m = &x.m;
            let tree = &mut x.tree;
            let mut it = libr(|| tree.iter_mut());
            let (mut lo, mut hi) = (0, n);
            let mut refs: Vec<(usize, &mut Tracked<P>)> = vec![];
            macro_rules! step {
                ($front:expr) => {{
                    ctx::reent();
                    let got = if $front { libr(|| it.next()) } else { libr(|| it.next_back()) };
                    let ge = got.as_ref().map(|i| Self::seen(i, "item yielded by iter_mut"));
                    let want = if lo < hi {
                        if $front { lo += 1; Some((lo - 1, m[lo - 1])) } else { hi -= 1; Some((hi, m[hi])) }
                    } else { None };
                    if ge != want.map(|w| w.1) { obs.push((format!("iter_mut {}", if $front { "next" } else { "next_back" }), ge, want.map(|w| w.1))); }
                    else if let (Some(r), Some((i, _))) = (got, want) { refs.push((i, r)); }
                    if it.size_hint() != (hi - lo, Some(hi - lo)) || it.len() != hi - lo {
                        problems.push(format!("iterator reports {:?} remaining items, {} expected", it.size_hint(), hi - lo));
                    }
                    ge.is_some() && obs.is_empty() && problems.is_empty()
                }};
            }
            for b in &script {
                match b & 15 {
                    0..=6 => { step!(true); }
                    7..=12 => { step!(false); }
                    13 => { while step!(true) {} step!(false); }
                    14 => { while step!(false) {} step!(true); }
                    _ if b & 128 == 0 => { step!(true); step!(false); }
                    _ => {
                        let (front, j) = (b & 64 == 0, (*b >> 4) as usize % 4);
                        let got = if front { libr(|| it.nth(j)) } else { libr(|| it.nth_back(j)) };
                        let ge = got.as_ref().map(|i| Self::seen(i, "item yielded by iter_mut"));
                        let (want, i) = nth_model(m, &mut lo, &mut hi, front, j);
                        if ge != want { obs.push((format!("iter_mut {}({j})", if front { "nth" } else { "nth_back" }), ge, want)); }
                        else if let Some(r) = got { refs.push((i, r)); }
                        if it.size_hint() != (hi - lo, Some(hi - lo)) {
                            problems.push(format!("iterator reports {:?} remaining items after nth, {} expected", it.size_hint(), hi - lo));
                        }
                    }
                }
                if !obs.is_empty() || !problems.is_empty() { break; }
            }
            left_over = hi - lo;
            if fin > 0 && obs.is_empty() && problems.is_empty() {
                let (kind, k) = (fin as usize % FINISH, (fin as usize / FINISH) % 7);
                let (want, wn) = finish_model(m, lo, hi, kind, k);
                let mut got = vec![];
                let n = libr(|| finish(it, kind, k, |i: &mut Tracked<P>| {
                    let _o = alloc::Out::new();
                    let e = Self::seen(i, "item yielded by iter_mut");
                    got.push(e);
                    if let Some(j) = m.iter().position(|x| x.uid == e.uid) { refs.push((j, i)) }
                }));
                if got != want || n != wn {
                    problems.push(format!("iter_mut {}({k}) of {lo}..{hi} returned {n:?} instead of {wn:?}: {}", FINISH_NAMES[kind], diff(&got, &want)));
                }
            } else {
                drop(it);
            }
            let mut addrs: Vec<usize> = refs.iter().map(|r| r.1 as *const _ as usize).collect();
            addrs.sort();
            addrs.dedup();
            if addrs.len() != refs.len() {
                problems.push("two live mutable references to one item".into());
            }
            // all references are still usable together
            for (i, r) in refs.iter_mut() {
                r.val = nv + *i as u32;
                written.push(*i);
            }
        });
        self.next_val += n as u32 + 1;
        if left_over > 0 {
            count(Fault::Cancel);
        }
        let a = op(|o| o.st_calls.get());
        if script.len() <= 1 {
            self.iter_bound("iterate mutably", a, n);
        }
        for i in written {
            self.slots[s].m[i].val = nv + i as u32;
        }
        for (w, g, e) in obs {
            self.expect(&w, s, g, e);
        }
        for p in problems {
            self.bad("result", p);
        }
    }

    fn into_iter(&mut self, st: &Step, s: usize) {
        let n = self.len(s);
        let mut tree = Some(RawBTree::new());
        std::mem::swap(&mut self.slots[s].tree, tree.as_mut().unwrap());
        let script = st.script.clone();
        let mode = st.b.rem_euclid(6);
        let fin = st.c.max(0) as usize;
        let mut skipped: Vec<Ent> = vec![];
        let mut obs: Vec<(String, Option<Ent>, Option<Ent>)> = vec![];
        let mut problems: Vec<String> = vec![];
        let mut kept: Vec<Tracked<P>> = vec![];
        let (mut lo, mut hi) = (0, n);
        let late = Step { fault: Fault::None, ..st.clone() };
        let fault_n = if st.fault == Fault::Drop { st.n } else { 0 };
        let r = self.call(&late, s, true, |x| {
            let _o = alloc::Out::new();
            let m = &x.m;
            let mut it = libr(|| tree.take().unwrap().into_iter());
            macro_rules! step {
                ($front:expr, $keep:expr) => {{
                    let got = if $front { libr(|| it.next()) } else { libr(|| it.next_back()) };
                    let ge = got.as_ref().map(|i| Self::seen(i, "item yielded by into_iter"));
                    let want = if lo < hi {
                        if $front { lo += 1; Some(m[lo - 1]) } else { hi -= 1; Some(m[hi]) }
                    } else { None };
                    if ge != want { obs.push((format!("into_iter {}", if $front { "next" } else { "next_back" }), ge, want)); }
                    if it.size_hint() != (hi - lo, Some(hi - lo)) || it.len() != hi - lo {
                        problems.push(format!("iterator reports {:?} remaining items, {} expected", it.size_hint(), hi - lo));
                    }
                    if let Some(g) = got { if $keep { kept.push(g) } else { drop(g) } }
                    ge.is_some() && obs.is_empty() && problems.is_empty()
                }};
            }
            for b in &script {
                let keep = b & 16 != 0;
                match b & 15 {
                    0..=6 => { step!(true, keep); }
                    7..=12 => { step!(false, keep); }
                    13 => { for _ in 0..(b >> 5) * 3 { step!(true, keep); } }
                    14 => { for _ in 0..(b >> 5) * 3 { step!(false, keep); } }
                    _ if b & 128 == 0 => { step!(true, keep); step!(false, keep); }
                    _ => {
                        let (front, j) = (b & 64 == 0, (*b >> 4) as usize % 4);
                        let (l0, h0) = (lo, hi);
                        let got = if front { libr(|| it.nth(j)) } else { libr(|| it.nth_back(j)) };
                        let ge = got.as_ref().map(|i| Self::seen(i, "item yielded by into_iter"));
                        let (want, i) = nth_model(m, &mut lo, &mut hi, front, j);
                        skipped.extend(m[l0..lo].iter().chain(&m[hi..h0]).enumerate().filter(|(_, e)| want.is_none() || e.uid != m[i].uid).map(|(_, e)| *e));
                        if ge != want { obs.push((format!("into_iter {}({j})", if front { "nth" } else { "nth_back" }), ge, want)); }
                        if it.size_hint() != (hi - lo, Some(hi - lo)) {
                            problems.push(format!("iterator reports {:?} remaining items after nth, {} expected", it.size_hint(), hi - lo));
                        }
                        if let Some(g) = got { if keep { kept.push(g) } else { drop(g) } }
                    }
                }
                if !obs.is_empty() || !problems.is_empty() { break; }
            }
            match mode {
                1 => {
                    count(Fault::Leak);
                    ctx().leak_tol = true;
                    std::mem::forget(it);
                }
                3 => {
                    while step!(true, false) {}
                    if obs.is_empty() && problems.is_empty() { step!(false, false); step!(true, false); }
                    libr(|| drop(it));
                }
                2 => {
                    // the consumer panics while it owns the iterator
                    count(Fault::Consumer);
                    op(|o| o.unwinding.set(true));
                    let _i = In::new();
                    let _own = it;
                    ctx::inject(Fault::Consumer);
                }
                4 | 5 if obs.is_empty() && problems.is_empty() => {
                    // the rest goes through a standard adaptor; the consuming closure may panic
                    let (kind, k) = (fin % FINISH, (fin / FINISH) % 7);
                    let (want, wn) = finish_model(m, lo, hi, kind, k);
                    let panic_at = if mode == 5 { 1 + (fin / (7 * FINISH)) % 12 } else { 0 };
                    if mode == 4 { op(|o| o.drop_arm.set(fault_n)); }
                    let mut got = vec![];
                    let mut n = None;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        n = libr(|| finish(it, kind, k, |i: Tracked<P>| {
                            let _o = alloc::Out::new();
                            got.push(Self::seen(&i, "item yielded by into_iter"));
                            if got.len() == panic_at {
                                count(Fault::Consumer);
                                op(|o| o.unwinding.set(true));
                                ctx::inject(Fault::Consumer);
                            }
                            if got.len() % 3 == 0 { kept.push(i) } else { let _i = In::new(); drop(i) }
                        }));
                    }));
                    let ok = match r {
                        Ok(()) => got == want && n == wn,
                        Err(_) => got.len() <= want.len() && got[..] == want[..got.len()],
                    };
                    if !ok {
                        problems.push(format!("into_iter {}({k}) of {lo}..{hi} returned {n:?} instead of {wn:?}: {}", FINISH_NAMES[kind], diff(&got, &want)));
                    }
                    if let Err(p) = r { std::panic::resume_unwind(p) }
                }
                _ => {
                    if lo < hi { count(Fault::Cancel); }
                    op(|o| o.drop_arm.set(fault_n));
                    libr(|| drop(it));
                }
            }
        });
        op(|o| o.unwinding.set(false));
        if mode != 5 {
            let a = op(|o| o.st_calls.get());
            self.iter_bound("consume", a, n);
        }
        let fired_drop = matches!(r, Err(Fault::Drop)) || op(|o| o.fired.get()) == Fault::Drop as u8;
        let m = std::mem::take(&mut self.slots[s].m);
        if obs.is_empty() && problems.is_empty() {
            let given: Vec<u32> = kept.iter().map(|k| k.uid).collect();
            for e in m[lo.min(hi)..hi].iter().chain(&skipped) {
                if given.contains(&e.uid) {
                    continue;
                }
                if mode == 1 || fired_drop {
                    self.may_leak(e.uid);
                } else if self.is_live(e.uid) && ctx().items[e.uid as usize].class == Class::Normal {
                    self.bad("own", format!("item #{} still alive after the owning iterator was dropped", e.uid));
                    self.may_leak(e.uid);
                }
            }
        }
        self.slots[s].sorted = true;
        self.slots[s].last = (0, 0, vec![]);
        for (w, g, e) in obs {
            ev(g.map(|g| g.uid as u64).unwrap_or(u64::MAX));
            let f = |e: Option<Ent>| e.map(|e| format!("item #{} (key {})", e.uid, e.key)).unwrap_or("nothing".into());
            self.bad("result", format!("{w} returned {} instead of {}", f(g), f(e)));
        }
        for p in problems {
            self.bad("result", p);
        }
        for k in kept {
            k.check("item handed out by into_iter");
            self.keep_or_drop(k);
        }
    }

    // ---- visits ---------------------------------------------------------------

    fn visit(&mut self, st: &Step, s: usize) {
        let w = walk(&self.slots[s].tree);
        let mutable = st.c % 2 == 1;
        self.next_val += 1;
        let nv = self.next_val;
        let mut seen: Vec<S::Node> = vec![];
        let mut contents: Vec<Vec<u32>> = vec![];
        let mut written: Vec<u32> = vec![];
        let r = self.call(st, s, true, |x| {
            if mutable {
                x.tree.visit_from_leaves_mut(|id, node| {
                    let _o = alloc::Out::new();
                    ctx::reent();
                    if op(|o| tick(&o.visit_arm, Fault::Visit)) {
                        ctx::inject(Fault::Visit)
                    }
                    seen.push(id);
                    let mut c = vec![];
                    for i in 0..node.item_count() {
                        if let Some(it) = node.item_mut(i.into()) {
                            it.check("item seen by a mutable visit");
                            c.push(it.uid);
                            if it.uid % 3 == nv % 3 {
                                it.val = nv;
                                written.push(it.uid);
                            }
                        }
                    }
                    contents.push(c);
                })
            } else {
                x.tree.visit_from_leaves(|id| {
                    let _o = alloc::Out::new();
                    ctx::reent();
                    if op(|o| tick(&o.visit_arm, Fault::Visit)) {
                        ctx::inject(Fault::Visit)
                    }
                    seen.push(id);
                })
            }
        });
        for e in self.slots[s].m.iter_mut() {
            if written.contains(&e.uid) {
                e.val = nv;
            }
        }
        if r == Err(Fault::None) {
            return;
        }
        // every visited node exists, once; children come first
        let _q = Quiet::new();
        let mut err = None;
        for (i, id) in seen.iter().enumerate() {
            if !w.ids.iter().any(|x| x == id) {
                err = Some("visited a node that is not in the tree".to_string());
                break;
            }
            if seen[..i].iter().any(|x| x == id) {
                err = Some("visited a node twice".to_string());
                break;
            }
            let node = unsafe { self.slots[s].tree.node(*id) };
            for c in node.children() {
                if !seen[..i].iter().any(|x| *x == c) {
                    err = Some("visited a node before one of its children".to_string());
                }
            }
            if mutable {
                let now: Vec<u32> = (0..node.item_count()).filter_map(|k| node.item(k.into())).map(|x| x.uid).collect();
                if now != contents[i] {
                    err = Some("visitor was given another node's content".to_string());
                }
            }
        }
        drop(_q);
        if r.is_ok() && err.is_none() && seen.len() != w.ids.len() {
            err = Some(format!("visited {} of {} nodes", seen.len(), w.ids.len()));
        }
        if let Some(e) = err {
            self.bad("result", e);
        }
    }

    // ---- addresses --------------------------------------------------------------

    fn addr_of(&mut self, s: usize, key: i64) -> Option<Address<S::Node>> {
        let none = Step { op: Op::Nav, a: 0, b: 0, c: 0, fault: Fault::None, n: 0, script: vec![] };
        match self.call(&none, s, false, |x| x.tree.address_of(cmp_key, &key)) {
            Ok(Ok(a)) => Some(a),
            Ok(Err(_)) => {
                self.bad("result", format!("no address found for present key {key}"));
                None
            }
            Err(_) => None,
        }
    }

    fn at(&self, s: usize, a: Address<S::Node>) -> Option<Ent> {
        let _q = Quiet::new();
        unsafe { self.slots[s].tree.get_at(a).map(|i| Self::seen(i, "item read at an address")) }
    }

    /// Edits at addresses where they cannot be made: they panic and change nothing.
    fn rejected(&mut self, st: &Step, s: usize) {
        let i = ((st.b as u64).wrapping_mul(0xD1B5_4A32_D192_ED03) >> 16) as usize % self.len(s);
        let key = self.slots[s].m[i].key;
        let Some(mut a) = self.addr_of(s, key) else { return };
        // towards the root: the full nodes are there after growth
        for _ in 0..st.c / 96 % 4 {
            if let Some(p) = unsafe { self.slots[s].tree.node(a.node) }.parent() {
                a = Address::new(p, 0.into());
            }
        }
        let (leaf, count) = {
            let n = unsafe { self.slots[s].tree.node(a.node) };
            (n.child_count() == 0, n.item_count())
        };
        let replace = st.c / 384 % 2 == 1;
        if leaf || replace {
            a.offset = if st.b % 2 == 0 { Offset::before() } else { (count + replace as usize + (st.b % 7) as usize).into() };
            if !replace && a.offset == count {
                return; // a good address
            }
        }
        let it = self.new_item(key);
        let uid = it.uid;
        arm(&Step { fault: Fault::None, ..st.clone() }, 0, 0, false);
        self.st.calls += 1;
        let r = lib(|| unsafe {
            let t = &mut self.slots[s].tree;
            if replace {
                drop(t.replace_at(a, it));
            } else {
                t.insert_exactly_at(Some(a), it, None);
            }
        });
        disarm();
        let what = if replace { "replacement" } else { "insertion" };
        match r {
            Err(Caught::Unexpected(_)) => (),
            _ => self.bad("result", format!("an {what} where none can be made ({} node of {count} items, offset {:?}) did not panic", if leaf { "leaf" } else { "internal" }, a.offset)),
        }
        self.consumed(uid, "a rejected edit at an address");
        self.probe("rejected edit");
    }

    fn insert_at(&mut self, st: &Step, s: usize) {
        let n = self.len(s);
        if n > 0 && st.c / 8 % 12 == 0 {
            self.rejected(st, s);
            if self.dirty || self.stop {
                return;
            }
        }
        let sel = ((st.b as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 16) as usize;
        // position of the new item
        let i = sel % (n + 1);
        let key = {
            let m = &self.slots[s].m;
            if n == 0 {
                0
            } else if i == 0 {
                m[0].key - STRIDE
            } else if i == n {
                m[n - 1].key + STRIDE
            } else {
                m[i - 1].key + (m[i].key - m[i - 1].key) / 2
            }
        };
        if n > 0 && self.pos(s, key).is_ok() {
            return; // no room between the neighbours
        }
        let quiet = Step { fault: Fault::None, ..st.clone() };
        let mut exact = false;
        let mode = st.c % 8;
        let addr: Option<Address<S::Node>> = if n == 0 {
            None
        } else {
            let before = if i < n { Some(self.slots[s].m[i].key) } else { None };
            let after = if i > 0 { Some(self.slots[s].m[i - 1].key) } else { None };
            let a = match (mode, before, after) {
                (1, Some(k), _) | (5, Some(k), None) => self.addr_of(s, k),
                (2, Some(k), _) => {
                    let Some(a) = self.addr_of(s, k) else { return };
                    exact = true;
                    self.call(&quiet, s, false, |x| unsafe { x.tree.leaf_address(a) }).ok()
                }
                (3, _, Some(k)) | (1, None, Some(k)) => {
                    let Some(a) = self.addr_of(s, k) else { return };
                    self.call(&quiet, s, false, |x| unsafe { x.tree.next_item_or_back_address(a) }).ok().flatten()
                }
                (4, _, Some(k)) | (2, None, Some(k)) => {
                    let Some(a) = self.addr_of(s, k) else { return };
                    self.call(&quiet, s, false, |x| unsafe { x.tree.next_back_address(a) }).ok().flatten()
                }
                (5, Some(k), Some(_)) => {
                    let Some(a) = self.addr_of(s, k) else { return };
                    self.call(&quiet, s, false, |x| unsafe { x.tree.normalize(a) }).ok().flatten()
                }
                _ => {
                    exact = mode % 2 == 0;
                    match self.call(&quiet, s, false, |x| x.tree.address_of(cmp_key, &key)) {
                        Ok(Err(a)) => a,
                        Ok(Ok(_)) => {
                            self.bad("result", format!("address found for absent key {key}"));
                            None
                        }
                        Err(_) => None,
                    }
                }
            };
            if a.is_none() {
                if !self.dirty {
                    self.bad("result", format!("no insertion address next to an item of a non-empty tree (mode {mode})"));
                }
                return;
            }
            a
        };
        let it = self.new_item(key);
        let (uid, val) = (it.uid, it.val);
        let r = self.call(st, s, false, |x| unsafe {
            if exact {
                x.tree.insert_exactly_at(addr, it, None)
            } else {
                x.tree.insert_at(addr, it)
            }
        });
        match r {
            Ok(ret) => {
                self.slots[s].m.insert(i, Ent { key, uid, val });
                match ret {
                    None => self.bad("result", "insertion at an address returned no address".into()),
                    Some(a) => {
                        let got = self.at(s, a);
                        self.expect("reading at the address returned by an insertion", s, got, Some(Ent { key, uid, val }));
                        if let Some(b) = self.addr_of(s, key) {
                            if b != a {
                                self.bad("result", format!("insertion returned address {:?} but the item is at {:?}", a, b));
                            }
                        }
                    }
                }
            }
            Err(f) => {
                self.consumed(uid, "insertion at an address");
                if f == Fault::Alloc {
                    // the address is still good
                    if let Some(a) = addr {
                        let a2 = self.call(&quiet, s, false, |x| unsafe { x.tree.normalize(a) });
                        if let Ok(a2) = a2 {
                            let got = a2.and_then(|a| self.at(s, a));
                            let want = self.slots[s].m.get(i).copied();
                            // an address obtained through `leaf_address`/lookup points before item i
                            self.expect("address kept across a refused insertion", s, got, want);
                        }
                    }
                }
            }
        }
    }

    fn remove_at(&mut self, st: &Step, s: usize) {
        let n = self.len(s);
        if n == 0 {
            return;
        }
        let quiet = Step { fault: Fault::None, ..st.clone() };
        let i = ((st.b as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 16) as usize % n;
        let e = self.slots[s].m[i];
        let Some(a) = self.addr_of(s, e.key) else { return };
        let r = self.call(&quiet, s, false, |x| unsafe { x.tree.remove_at(a) });
        let Ok(r) = r else { return };
        let Some((it, back)) = r else {
            self.bad("result", format!("nothing removed at the address of item #{}", e.uid));
            return;
        };
        self.slots[s].m.remove(i);
        let got = Some(Self::seen(&it, "item returned by remove_at"));
        self.expect("remove_at", s, got, Some(e));
        self.keep_or_drop(it);
        match back {
            None => {
                if n > 1 {
                    self.bad("result", "remove_at returned no address though the tree is not empty".into());
                }
            }
            Some(b) => {
                if n == 1 {
                    self.bad("result", "remove_at returned an address though the tree is empty".into());
                    return;
                }
                if self.dirty {
                    return;
                }
                // where does it lead?
                if let Ok(nb) = self.call(&quiet, s, false, |x| unsafe { x.tree.normalize(b) }) {
                    let got = nb.and_then(|a| self.at(s, a));
                    let want = self.slots[s].m.get(i).copied();
                    self.expect("item following the address returned by remove_at", s, got, want);
                }
                if st.c % 3 != 0 && !self.dirty {
                    // reinsert there
                    let it = self.new_item(e.key);
                    let (uid, val) = (it.uid, it.val);
                    match self.call(st, s, false, |x| unsafe { x.tree.insert_at(Some(b), it) }) {
                        Ok(ret) => {
                            self.slots[s].m.insert(i, Ent { key: e.key, uid, val });
                            let got = ret.and_then(|a| self.at(s, a));
                            self.expect("reading at the address returned by a reinsertion", s, got, Some(Ent { key: e.key, uid, val }));
                        }
                        Err(_) => self.consumed(uid, "reinsertion"),
                    }
                }
            }
        }
    }

    fn replace_at(&mut self, st: &Step, s: usize) {
        let n = self.len(s);
        if n == 0 {
            return;
        }
        let i = ((st.b as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 16) as usize % n;
        let e = self.slots[s].m[i];
        let Some(a) = self.addr_of(s, e.key) else { return };
        if st.c % 2 == 0 {
            let it = self.new_item(e.key);
            let (uid, val) = (it.uid, it.val);
            if let Ok(old) = self.call(st, s, false, |x| unsafe { x.tree.replace_at(a, it) }) {
                self.slots[s].m[i] = Ent { key: e.key, uid, val };
                let got = Some(Self::seen(&old, "item returned by replace_at"));
                self.expect("replace_at", s, got, Some(e));
                self.keep_or_drop(old);
            }
        } else {
            self.next_val += 1;
            let nv = self.next_val;
            let r = self.call(st, s, false, |x| unsafe {
                x.tree.get_mut_at(a).map(|it| {
                    let e = Self::seen(it, "get_mut_at");
                    it.val = nv;
                    e
                })
            });
            if let Ok(got) = r {
                self.expect("get_mut_at", s, got, Some(e));
                self.slots[s].m[i].val = nv;
            }
        }
    }

    fn nav(&mut self, st: &Step, s: usize) {
        let n = self.len(s);
        if n == 0 {
            return;
        }
        let i = ((st.b as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 16) as usize % n;
        let e = self.slots[s].m[i];
        let Some(a) = self.addr_of(s, e.key) else { return };
        let got = self.at(s, a);
        self.expect("get_at", s, got, Some(e));
        let r = self.call(st, s, false, |x| unsafe {
            let nx = x.tree.next_item_address(a);
            let pv = x.tree.previous_item_address(a);
            (nx, pv, nx.and_then(|y| x.tree.previous_item_address(y)), pv.and_then(|y| x.tree.next_item_address(y)), x.tree.normalize(a), x.tree.next_item_or_back_address(a))
        });
        let Ok((nx, pv, np, pn, no, nb)) = r else { return };
        let mi = |k: Option<usize>, w: &Self| k.and_then(|k| w.slots[s].m.get(k).copied());
        let next = mi(Some(i + 1), self);
        let prev = mi(i.checked_sub(1), self);
        let g = nx.and_then(|x| self.at(s, x));
        self.expect("next_item_address", s, g, next);
        let g = pv.and_then(|x| self.at(s, x));
        self.expect("previous_item_address", s, g, prev);
        if nx.is_some() != next.is_some() || pv.is_some() != prev.is_some() {
            self.bad("result", "an item address is returned past the first or last item".into());
        }
        if nx.is_some() && np != Some(a) {
            self.bad("result", "previous of next is another address".into());
        }
        if pv.is_some() && pn != Some(a) {
            self.bad("result", "next of previous is another address".into());
        }
        if no != Some(a) {
            self.bad("result", "normalize changes the address of an item".into());
        }
        let g = nb.and_then(|x| self.at(s, x));
        self.expect("next_item_or_back_address", s, g, next);
        if nb.is_none() {
            self.bad("result", "next_item_or_back_address found nothing after an item".into());
        }
    }

    /// The valid addresses before the first and after the last item of a node.
    fn edge(&mut self, st: &Step, s: usize) {
        let n = self.len(s);
        if n == 0 {
            return;
        }
        let i = ((st.b as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 16) as usize % n;
        let e = self.slots[s].m[i];
        let Some(mut a) = self.addr_of(s, e.key) else { return };
        let front = st.c % 2 == 0;
        let (lo, hi);
        {
            let _q = Quiet::new();
            let t = &self.slots[s].tree;
            for _ in 0..(st.c / 2) % 4 {
                let node = unsafe { t.node(a.node) };
                if let Some(p) = node.parent() {
                    a.node = p;
                }
            }
            let Some(root) = t.root() else { return };
            let mut count = 0;
            let Some(r) = extent(t, root, a.node, &mut count) else { return };
            (lo, hi) = r;
            a.offset = if front { Offset::before() } else { unsafe { t.node(a.node).item_count() }.into() };
        }
        let name = if front { "the address before a node's first item" } else { "the address after a node's last item" };
        let k = if front { lo } else { hi };
        let next = self.slots[s].m.get(k).copied();
        let prev = k.checked_sub(1).and_then(|k| self.slots[s].m.get(k).copied());
        let r = self.call(st, s, false, |x| unsafe {
            (x.tree.get_at(a).is_some(), x.tree.normalize(a), x.tree.next_item_address(a), x.tree.previous_item_address(a), x.tree.next_item_or_back_address(a))
        });
        let Ok((here, no, nx, pv, nb)) = r else { return };
        if here {
            self.bad("result", format!("an item is read at {name}"));
        }
        for (what, x, want) in [("normalize", no, next), ("next_item_address", nx, next), ("previous_item_address", pv, prev)] {
            let g = x.and_then(|x| self.at(s, x));
            self.expect(&format!("{what} from {name}"), s, g, want);
            if x.is_some() && g.is_none() {
                self.bad("result", format!("{what} from {name} returned an address without item"));
            }
        }
        let g = nb.and_then(|x| self.at(s, x));
        self.expect(&format!("next_item_or_back_address from {name}"), s, g, next);
        if !self.dirty && st.c & 8 != 0 {
            let quiet = Step { fault: Fault::None, ..st.clone() };
            let r = self.call(&quiet, s, false, |x| unsafe { (x.tree.get_mut_at(a).is_some(), x.tree.remove_at(a).map(|r| r.0)) });
            match r {
                Ok((false, None)) | Err(_) => (),
                Ok((m, r)) => {
                    self.bad("result", format!("an item is found at {name}"));
                    drop((m, r));
                }
            }
        }
    }

    /// The crate's validator, on a copy of the tree: as it is, and damaged.
    #[cfg(debug_assertions)]
    fn damage(&mut self, st: &Step, s: usize) {
        if self.len(s) > 1500 {
            return;
        }
        let kind = st.c.rem_euclid(crate::damage::KINDS.len() as i64) as usize;
        let (damaged, bad) = crate::damage::try_one(&self.slots[s].tree, kind, st.b as u64);
        self.st.calls += 1;
        if damaged {
            self.st.damaged += 1;
            self.probe(crate::damage::KINDS[kind]);
        }
        if let Some(m) = bad {
            self.bad("validator", m);
            self.dirty = false;
        }
    }
    #[cfg(not(debug_assertions))]
    fn damage(&mut self, _: &Step, _: usize) {}

    /// A history of edits of single nodes.
    fn node_edits(&mut self, st: &Step) {
        match crate::edit::run::<P, S>(st) {
            Ok(n) => self.st.calls += n,
            Err(m) => {
                self.bad("node", m);
                self.dirty = false;
            }
        }
    }

    /// A history of an ordered map of the crate's key/value items.
    fn item_map(&mut self, st: &Step) {
        use raw_btree::Item;
        let r = if std::any::type_name::<S>().contains("SimStorage") {
            crate::map::run::<P, crate::storage::SimStorage<Item<Tracked<P>, Tracked<P>>>>(st)
        } else {
            crate::map::run::<P, raw_btree::storage::BoxStorage>(st)
        };
        match r {
            Ok(n) => self.st.calls += n,
            Err(m) => {
                self.bad("map", m);
                self.dirty = false;
            }
        }
    }

    /// Offsets of one of the tree's nodes.
    fn cursors(&mut self, st: &Step, s: usize) {
        disarm();
        match crate::cursor::run::<P, S>(&self.slots[s].tree, st) {
            Ok(n) => self.st.calls += n,
            Err(m) => self.bad("offset", m),
        }
    }

    /// A short history of a tree of zero-sized items.
    fn unit(&mut self, st: &Step) {
        use crate::storage::SimStorage;
        use crate::unit::{run, Token, Wide};
        arm(st, ctx().storage_seed, 4_000, true);
        let sim = std::any::type_name::<S>().contains("SimStorage");
        let r = match (st.c % 3, sim) {
            (0, false) => run::<Token, raw_btree::storage::BoxStorage>(st),
            (0, true) => run::<Token, SimStorage<Token>>(st),
            (1, false) => run::<Wide, raw_btree::storage::BoxStorage>(st),
            (1, true) => run::<Wide, SimStorage<Wide>>(st),
            (_, false) => run::<(), raw_btree::storage::BoxStorage>(st),
            (_, true) => run::<(), SimStorage<()>>(st),
        };
        disarm();
        if let Err((class, m)) = r {
            self.bad(class, m);
            // its tree is gone, the others are as they were
            self.dirty = false;
        }
    }

    /// Complete walks from a chosen item by each of the stepping functions.
    fn walk_addrs(&mut self, st: &Step, s: usize) {
        let n = self.len(s);
        let first = self.call(st, s, false, |x| x.tree.first_item_address());
        if let Ok(f) = first {
            let g = f.and_then(|a| self.at(s, a));
            let want = self.slots[s].m.first().copied();
            self.expect("first_item_address", s, g, want);
        }
        if n == 0 || self.dirty {
            return;
        }
        let i = ((st.b as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 16) as usize % n;
        let e = self.slots[s].m[i];
        let Some(a) = self.addr_of(s, e.key) else { return };
        let kind = st.c % 4;
        let r = self.call(st, s, true, |x| unsafe {
            let mut out: Vec<Ent> = vec![];
            let mut met: Vec<(S::Node, Option<Ent>)> = vec![];
            let mut cur = Some(a);
            let mut guard = 0;
            while let Some(c) = cur {
                guard += 1;
                if guard > 8 * n + 64 {
                    return Err("address walk does not end".to_string());
                }
                let it = x.tree.get_at(c);
                let here = {
                    let _o = alloc::Out::new();
                    let e = it.map(|it| Self::seen(it, "address walk"));
                    met.push((c.node, e));
                    e
                };
                if here.is_none() {
                    let edge = match kind {
                        2 => c.offset.value() == Some(x.tree.node(c.node).item_count()),
                        3 => c.offset.is_before(),
                        _ => false,
                    };
                    if !edge {
                        return Err("stepping led to an address without item".to_string());
                    }
                } else {
                    let _o = alloc::Out::new();
                    out.extend(here);
                }
                cur = match kind {
                    0 => x.tree.next_item_address(c),
                    1 => x.tree.previous_item_address(c),
                    2 => x.tree.next_back_address(c),
                    _ => x.tree.previous_front_address(c),
                };
            }
            Ok((out, met))
        });
        let name = ["next_item_address", "previous_item_address", "next_back_address", "previous_front_address"][kind as usize];
        match r {
            Ok(Ok((out, met))) => {
                let want: Vec<Ent> = if kind % 2 == 0 {
                    self.slots[s].m[i..].to_vec()
                } else {
                    self.slots[s].m[..=i].iter().rev().copied().collect()
                };
                ev(out.len() as u64);
                if out != want {
                    self.bad("result", format!("following {name} from item #{} visits {} items instead of {} (or in another order)", e.uid, out.len(), want.len()));
                } else if kind >= 2 {
                    let _q = Quiet::new();
                    let t = &self.slots[s].tree;
                    let mut all = vec![];
                    if let Some(root) = t.root() {
                        steps(t, root, kind == 3, &mut all);
                    }
                    let from = all.iter().position(|x| x.1 == Some(e)).unwrap_or(0);
                    if met != all[from..] {
                        let (g, w) = (met.len() - out.len(), all.len() - from - want.len());
                        self.bad("result", format!("following {name} from item #{} meets {g} node ends instead of {w} (or at another place)", e.uid));
                    }
                }
            }
            Ok(Err(m)) => self.bad("result", format!("{name}: {m}")),
            Err(_) => (),
        }
    }

    // ---- export -------------------------------------------------------------------

    fn dot(&mut self, st: &Step, s: usize) {
        let ideal = {
            let mut v: Vec<u8> = vec![];
            let quiet = Step { fault: Fault::None, ..st.clone() };
            match self.call(&quiet, s, true, |x| {
                let mut w = crate::dot::Plain(&mut v);
                x.tree.dot_write(&mut w)
            }) {
                Ok(Ok(())) => v,
                Ok(Err(e)) => {
                    self.bad("result", format!("export to a working writer failed: {e}"));
                    return;
                }
                Err(_) => return,
            }
        };
        let w = walk(&self.slots[s].tree);
        if w.err.is_some() {
            return;
        }
        {
            let r = faithful(&self.slots[s].tree, &w, &ideal);
            if let Err(m) = r {
                self.bad("result", format!("DOT export is not faithful: {m}"));
                return;
            }
        }
        // same export through a misbehaving writer
        let mut fw = crate::dot::FaultyWriter::new(&st.script);
        let r = self.call(st, s, true, |x| x.tree.dot_write(&mut fw));
        ev(fw.out.len() as u64);
        if !ideal.starts_with(&fw.out) {
            self.bad("result", format!("with a faulty writer, the first {} bytes written are not a prefix of the full export", fw.out.len()));
            return;
        }
        match r {
            Ok(Ok(())) => {
                if fw.raised.is_some() {
                    self.bad("result", format!("export reported success though the writer failed with {:?}", fw.raised));
                } else if fw.out != ideal {
                    self.bad("result", format!("export reported success after writing {} of {} bytes", fw.out.len(), ideal.len()));
                }
            }
            Ok(Err(e)) => match &fw.raised {
                Some(k) => {
                    if e.kind() != *k || (*k != std::io::ErrorKind::WriteZero && e.to_string() != crate::dot::MESSAGE) {
                        self.bad("result", format!("writer failed with {k:?} but the export reported {e}"));
                    }
                    if fw.after_error > 0 {
                        self.bad("result", format!("{} write(s) attempted after the writer failed", fw.after_error));
                    }
                }
                None => self.bad("result", format!("export failed ({e}) though the writer did not")),
            },
            Err(_) => (),
        }
    }

    // ---- checks after a step ---------------------------------------------------------

    pub fn check_slot(&mut self, s: usize, full: bool) {
        let mk = mask(self.prop);
        let n = self.len(s);
        let (tl, te) = (self.slots[s].tree.len(), self.slots[s].tree.is_empty());
        if tl != n {
            self.bad("len", format!("length is {tl}, {n} items are stored"));
        }
        if te != (n == 0) {
            self.bad("len", format!("is_empty is {te} with {n} items stored"));
        }
        if !full && !self.dirty {
            return;
        }
        let w = walk(&self.slots[s].tree);
        self.note(s, &w);
        if (mk & SHAPE) != 0 {
            if let Some((c, m)) = &w.err {
                if *c == "shape" || self.slots[s].sorted {
                    let (c, m) = (*c, m.clone());
                    self.bad(c, m);
                }
            }
            if w.items.len() != tl {
                self.bad("len", format!("length is {tl}, the tree holds {} items", w.items.len()));
            }
            #[cfg(debug_assertions)]
            if self.prop == 4 && w.err.is_none() && self.slots[s].sorted {
                let _q = Quiet::new();
                let t = &self.slots[s].tree;
                if let Err(Caught::Unexpected(m)) = lib(|| t.validate(crate::item::plain_cmp)) {
                    self.bad("shape", format!("the crate's validator rejects the tree: {m}"));
                }
            }
        }
        if (mk & CONTENT) != 0 {
            if self.slots[s].sorted {
                if w.items != self.slots[s].m {
                    let m = diff(&w.items, &self.slots[s].m);
                    self.bad("content", m);
                }
            } else {
                let mut a = w.items.clone();
                let mut b = self.slots[s].m.clone();
                a.sort_by_key(|e| e.uid);
                b.sort_by_key(|e| e.uid);
                if a != b {
                    let m = diff(&a, &b);
                    self.bad("content", m);
                }
            }
            // the public traversals agree
            let _q = Quiet::new();
            let t = &self.slots[s].tree;
            let lim = tl + 8;
            let r = lib(|| {
                let f: Vec<u32> = t.iter().take(lim).map(|i| i.uid).collect();
                let mut b: Vec<u32> = t.iter().rev().take(lim).map(|i| i.uid).collect();
                b.reverse();
                (f, b)
            });
            drop(_q);
            match r {
                Ok((f, b)) => {
                    let want: Vec<u32> = w.items.iter().map(|e| e.uid).collect();
                    if f != want {
                        self.bad("content", format!("forward traversal visits {} items, the tree holds {}, or the order differs", f.len(), want.len()));
                    }
                    if b != want {
                        self.bad("content", format!("backward traversal visits {} items, the tree holds {}, or the order differs", b.len(), want.len()));
                    }
                }
                Err(Caught::Unexpected(m)) => self.bad("panic", format!("traversal panicked: {m}")),
                _ => (),
            }
        }
        if !self.slots[s].sorted && w.err.as_ref().is_none_or(|e| e.0 == "order") {
            self.slots[s].m = w.items.clone();
        }
        if self.dirty {
            // another property is broken: go on from what the tree really holds
            if w.err.as_ref().is_some_and(|e| e.0 == "shape") {
                self.stop = true;
            }
            let mut v = w.items;
            if w.err.is_some() {
                self.stop = true;
                v.sort_by_key(|e| e.key);
            }
            self.slots[s].m = v;
        }
    }

    fn note(&mut self, s: usize, w: &WalkOut<S::Node>) {
        let (pn, ph, pocc) = std::mem::take(&mut self.slots[s].last);
        let (n, h) = (w.ids.len(), w.height);
        self.st.max_height = self.st.max_height.max(h);
        self.st.max_len = self.st.max_len.max(w.items.len());
        if matches!(self.cur, Op::Ins | Op::Rem | Op::InsAt | Op::RemAt) && pn > 0 {
            if n == pn + 1 && h == ph { self.probe("leaf split") }
            if h > ph { self.probe("root split") }
            if n > pn + 1 && h == ph { self.probe("split cascade below root") }
            if n + 1 == pn && h == ph { self.probe("merge") }
            if n + 1 < pn { self.probe("merge cascade") }
            if h < ph { self.probe("root collapse") }
            if n == pn && matches!(self.cur, Op::Rem | Op::RemAt) {
                let changed = pocc.iter().zip(&w.occ).filter(|(a, b)| a != b).count();
                if changed == 1 && h > 1 { self.probe("plain removal in deep tree") }
                if pocc.iter().zip(&w.occ).any(|(a, b)| b < a && *a as usize > M / 2 - 1) && changed == 1 && h > 1
                    && w.occ.contains(&((M / 2 - 1) as u8)) { self.probe("removal near underflow") }
            }
        }
        if h >= 3 { self.probe("tree of 3+ levels") }
        if h >= 4 { self.probe("tree of 4+ levels") }
        let sig = {
            let mut x = 0xcbf29ce484222325u64;
            for b in &w.occ { x = (x ^ *b as u64).wrapping_mul(0x100000001b3); }
            x
        };
        let fired = op(|o| o.fired.get());
        self.st.states.push(mix(&[sig, self.cur as u64, fired as u64]));
        self.slots[s].last = (n, h, w.occ.clone());
    }

    pub fn check_world(&mut self) {
        let mk = mask(self.prop);
        if let Some(e) = alloc::error() {
            fatal("heap", e.into());
        }
        if mk & OWN != 0 {
            // every live item is held by a tree or by the caller
            let mut in_trees = 0usize;
            let mut seen = std::collections::BTreeSet::new();
            for s in 0..self.slots.len() {
                let items: Vec<u32> = if self.prop == 5 || self.dirty {
                    walk(&self.slots[s].tree).items.iter().map(|e| e.uid).collect()
                } else {
                    self.slots[s].m.iter().map(|e| e.uid).collect()
                };
                for u in items {
                    in_trees += 1;
                    if !seen.insert(u) {
                        self.bad("own", format!("item #{u} is stored twice"));
                    }
                }
            }
            in_trees += self.nest.items() + self.side.0;
            let total = in_trees + self.held.len();
            let live = ctx().live_normal;
            if ctx().tracked && live != total as i64 {
                self.bad("own", format!("{live} items are alive, {in_trees} are stored and {} were handed out", self.held.len()));
            }
        }
        if mk & STORE != 0 && self.sim && !ctx().leak_tol {
            let mut reach = 0;
            for s in 0..self.slots.len() {
                reach += walk(&self.slots[s].tree).ids.len();
            }
            reach += self.nest.nodes() + self.side.1;
            let active: i64 = ctx().storages.iter().map(|s| s.active).sum();
            if active != reach as i64 {
                self.bad("store", format!("{active} nodes are allocated, {reach} are part of a tree"));
            }
        }
    }

    pub fn step(&mut self, i: usize, st: &Step) {
        let k = self.slots.len();
        let s = st.a as usize % k;
        self.cur = st.op;
        self.stepno = i;
        self.st.steps += 1;
        self.st.ops[st.op as usize] += 1;
        {
            let c = ctx();
            c.step = i;
            c.cur = st.op;
            c.what = st.op.name().to_string();
            if c.verbose {
                println!("step {i}: {} a={} b={} c={} fault={} n={} (len {})", st.op.name(), st.a, st.b, st.c, st.fault.name(), st.n, self.len(s));
            }
        }
        ev(0x57E9 ^ (i as u64) << 16 ^ st.op as u64);
        let mut touched = vec![s];
        if !self.slots[s].sorted && !matches!(st.op, Op::Ins | Op::Rem | Op::Get | Op::GetM | Op::NGet | Op::Fill | Op::Drain) {
            // the order is whatever it became: learn it before relying on it
            self.check_slot(s, true);
            if self.stop {
                return;
            }
        }
        match st.op {
            Op::Ins => { let key = self.pick_key(s, st.b, st.c); self.insert(st, s, key) }
            Op::Rem => { let key = self.pick_key(s, st.b, st.c); self.remove(st, s, key) }
            Op::Get => { let key = self.pick_key(s, st.b, st.c); self.get(st, s, key) }
            Op::NGet => { let key = self.pick_key(s, st.b, st.c); self.node_get(st, s, key) }
            Op::GetM => { let key = self.pick_key(s, st.b, st.c); self.get_mut(st, s, key) }
            Op::Ends => self.ends(st, s),
            Op::Clear => self.clear(st, s),
            Op::DropT => self.drop_tree(st, s),
            Op::Forget => self.forget(st, s),
            Op::Clone => {
                let d = st.b as usize % k;
                self.clone_tree(st, s, d);
                touched.push(d);
            }
            Op::Swap => {
                let d = st.b as usize % k;
                if d != s {
                    let (lo, hi) = (s.min(d), s.max(d));
                    let (x, y) = self.slots.split_at_mut(hi);
                    std::mem::swap(&mut x[lo], &mut y[0]);
                    touched.push(d);
                }
            }
            Op::Fill => self.fill(st, s),
            Op::Drain => self.drain(st, s),
            Op::Iter => self.iter(st, s),
            Op::IterM => self.iter_mut(st, s),
            Op::Into => self.into_iter(st, s),
            Op::Visit => self.visit(st, s),
            Op::InsAt => self.insert_at(st, s),
            Op::RemAt => self.remove_at(st, s),
            Op::RepAt => self.replace_at(st, s),
            Op::Nav => self.nav(st, s),
            Op::Edge => self.edge(st, s),
            Op::Unit => self.unit(st),
            Op::Damage => self.damage(st, s),
            Op::NodeEd => self.node_edits(st),
            Op::Map => self.item_map(st),
            Op::Cursor => self.cursors(st, s),
            Op::Walk => self.walk_addrs(st, s),
            Op::Dot => self.dot(st, s),
            _ => (),
        }
        // what to verify now
        let fired = op(|o| o.fired.get()) != 0;
        let mutating = !matches!(st.op, Op::Get | Op::Ends | Op::NGet | Op::Nav | Op::Walk | Op::Cursor);
        let n = self.len(s);
        let every = 1 + n / 96;
        let full = self.dirty
            || fired
            || (mutating && (i % every == 0 || !matches!(st.op, Op::Ins | Op::Rem | Op::GetM | Op::RepAt)));
        if self.prop == 9 {
            touched = (0..k).collect();
        }
        touched.sort();
        touched.dedup();
        for t in touched {
            if !self.stop {
                self.check_slot(t, full);
            }
        }
        if full || i % 4 == 0 {
            self.check_world();
        }
        for h in &self.held {
            h.check("item held by the caller");
        }
        self.dirty = false;
    }

    pub fn run(mut self, p: &Plan) -> Stats {
        for (i, st) in p.steps.iter().enumerate() {
            if self.stop {
                break;
            }
            self.step(i, st);
        }
        self.finish()
    }

    pub fn finish(mut self) -> Stats {
        self.cur = Op::DropT;
        ctx().cur = Op::DropT;
        ctx().what = "end of run".into();
        ctx().step = self.stepno + 1;
        if self.stop {
            self.st.abandoned = true;
            // the trees may be corrupt: do not run any more library code on them
            for s in std::mem::take(&mut self.slots) {
                std::mem::forget(s);
            }
            std::mem::forget(std::mem::take(&mut self.held));
            self.nest.abandon();
            return std::mem::take(&mut self.st);
        }
        for s in 0..self.slots.len() {
            self.check_slot(s, true);
        }
        self.check_world();
        let none = Step { op: Op::DropT, a: 0, b: 0, c: 0, fault: Fault::None, n: 0, script: vec![] };
        for s in 0..self.slots.len() {
            if self.stop {
                break;
            }
            self.drop_tree(&none, s);
        }
        for h in std::mem::take(&mut self.held) {
            h.check("item held by the caller");
            drop(h);
        }
        let slots = std::mem::take(&mut self.slots);
        if self.stop {
            std::mem::forget(slots);
            self.st.abandoned = true;
            return std::mem::take(&mut self.st);
        }
        let _ = lib(|| drop(slots));
        self.nest.finish();
        let mk = mask(self.prop);
        if mk & LEAK != 0 && self.st.foreign == 0 {
            let live = ctx().live_normal;
            if live != 0 {
                self.bad("leak-item", format!("{live} item(s) never destroyed nor handed out"));
            }
            let left = alloc::OUTSTANDING.load(std::sync::atomic::Ordering::SeqCst);
            if left > 0 && !ctx().leak_tol {
                // a leak, or something kept for later: see `main::run`
                self.st.leaked = left;
            }
        }
        if let Some(e) = alloc::flush_quarantine() {
            fatal("heap", e.into());
        }
        if let Some(e) = alloc::error() {
            fatal("heap", e.into());
        }
        std::mem::take(&mut self.st)
    }
}

/// Ways of ending an iteration through the standard adaptors.
pub const FINISH: usize = 26;
pub const FINISH_NAMES: [&str; FINISH] = [
    "drop", "last", "count", "fold", "rfold", "for_each", "rev.for_each", "skip.fold", "nth_back.fold",
    "step_by", "try_for_each", "find", "rev.skip", "collect", "rposition",
    "reduce", "all", "position", "partition", "rfind", "enumerate.rev", "nth/nth_back", "take.rev", "peekable.next_back",
    "zip.rev", "max_by",
];

/// What `nth` (or `nth_back`) returns on the items `lo..hi` of the model.
fn nth_model(m: &[Ent], lo: &mut usize, hi: &mut usize, front: bool, k: usize) -> (Option<Ent>, usize) {
    if *hi - *lo <= k {
        if front { *lo = *hi } else { *hi = *lo }
        return (None, 0);
    }
    if front {
        *lo += k + 1;
        (Some(m[*lo - 1]), *lo - 1)
    } else {
        *hi -= k + 1;
        (Some(m[*hi]), *hi)
    }
}

pub fn finish<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I, kind: usize, k: usize, mut see: impl FnMut(I::Item)) -> Option<usize> {
    match kind {
        0 => drop(it),
        1 => {
            if let Some(x) = it.last() {
                see(x)
            }
        }
        2 => return Some(it.count()),
        3 => {
            return Some(it.fold(0, |n, x| {
                see(x);
                n + 1
            }))
        }
        4 => {
            return Some(it.rfold(0, |n, x| {
                see(x);
                n + 1
            }))
        }
        5 => it.for_each(see),
        6 => it.rev().for_each(see),
        7 => it.skip(k).for_each(see),
        8 => {
            if let Some(x) = it.nth_back(k) {
                see(x)
            }
            it.for_each(see)
        }
        9 => it.step_by(k + 1).for_each(see),
        10 => {
            let mut n = 0;
            let _ = it.try_for_each(|x| {
                see(x);
                n += 1;
                if n > k { Err(()) } else { Ok(()) }
            });
            while let Some(x) = it.next_back() {
                see(x)
            }
        }
        11 => {
            let mut n = 0;
            let x = it.find(|_| {
                n += 1;
                n > k
            });
            if let Some(x) = x {
                see(x)
            }
            it.for_each(see)
        }
        12 => it.rev().skip(k).for_each(see),
        13 => {
            let all: Vec<I::Item> = it.collect();
            all.into_iter().for_each(see)
        }
        14 => {
            let mut n = 0;
            return it.rposition(|x| {
                see(x);
                n += 1;
                n > k
            });
        }
        15 => {
            let last = it.reduce(|a, b| {
                see(a);
                b
            });
            if let Some(x) = last {
                see(x)
            }
        }
        16 => {
            let mut n = 0;
            it.all(|x| {
                see(x);
                n += 1;
                n <= k
            });
            while let Some(x) = it.next_back() {
                see(x)
            }
        }
        17 => {
            let mut n = 0;
            return it.position(|x| {
                see(x);
                n += 1;
                n > k
            });
        }
        18 => {
            let mut n = 0;
            let (a, b): (Vec<I::Item>, Vec<I::Item>) = it.partition(|_| {
                n += 1;
                n % 2 == 1
            });
            a.into_iter().for_each(&mut see);
            b.into_iter().for_each(&mut see);
        }
        19 => {
            let mut n = 0;
            let x = it.rfind(|_| {
                n += 1;
                n > k
            });
            if let Some(x) = x {
                see(x)
            }
            it.for_each(see)
        }
        20 => {
            let mut first = None;
            it.enumerate().rev().for_each(|(i, x)| {
                first.get_or_insert(i);
                see(x)
            });
            return first;
        }
        21 => loop {
            let (a, b) = (it.nth(k % 3), it.nth_back(k % 2));
            if a.is_none() && b.is_none() {
                break;
            }
            a.into_iter().chain(b).for_each(&mut see)
        },
        22 => {
            it.by_ref().take(k).for_each(&mut see);
            it.rev().for_each(see)
        }
        23 => {
            let mut p = it.peekable();
            p.peek();
            while let Some(x) = p.next_back() {
                see(x)
            }
        }
        24 => it.zip(0..k).rev().for_each(|(x, _)| see(x)),
        _ => {
            if let Some(x) = it.max_by(|_, _| std::cmp::Ordering::Equal) {
                see(x)
            }
        }
    }
    None
}

pub fn finish_model(m: &[Ent], lo: usize, hi: usize, kind: usize, k: usize) -> (Vec<Ent>, Option<usize>) {
    let r = &m[lo..hi];
    let n = r.len();
    let rev = |r: &[Ent]| r.iter().rev().copied().collect::<Vec<_>>();
    match kind {
        0 => (vec![], None),
        1 => (r.last().copied().into_iter().collect(), None),
        2 => (vec![], Some(n)),
        3 => (r.to_vec(), Some(n)),
        4 => (rev(r), Some(n)),
        5 | 13 => (r.to_vec(), None),
        6 => (rev(r), None),
        7 => (r[k.min(n)..].to_vec(), None),
        8 if n > k => ([&[r[n - 1 - k]], &r[..n - 1 - k]].concat(), None),
        8 => (vec![], None),
        9 => (r.iter().step_by(k + 1).copied().collect(), None),
        10 => {
            let j = (k + 1).min(n);
            let mut v = r[..j].to_vec();
            v.extend(rev(&r[j..]));
            (v, None)
        }
        11 => (r[k.min(n)..].to_vec(), None),
        12 => (rev(&r[..n - k.min(n)]), None),
        14 => {
            let j = (k + 1).min(n);
            (rev(&r[n - j..]), if n > k { Some(n - 1 - k) } else { None })
        }
        15 => (r.to_vec(), None),
        16 => finish_model(m, lo, hi, 10, k),
        17 => (r[..(k + 1).min(n)].to_vec(), if n > k { Some(k) } else { None }),
        18 => (r.iter().step_by(2).chain(r.iter().skip(1).step_by(2)).copied().collect(), None),
        19 => finish_model(m, lo, hi, 8, k),
        20 => (rev(r), n.checked_sub(1)),
        21 => {
            let (mut a, mut b, mut v) = (lo, hi, vec![]);
            loop {
                let x = nth_model(m, &mut a, &mut b, true, k % 3).0;
                let y = nth_model(m, &mut a, &mut b, false, k % 2).0;
                if x.is_none() && y.is_none() {
                    return (v, None);
                }
                v.extend(x.into_iter().chain(y))
            }
        }
        22 => ([r[..k.min(n)].to_vec(), rev(&r[k.min(n)..])].concat(), None),
        23 => (rev(r), None),
        24 => (rev(&r[..k.min(n)]), None),
        _ => (r.last().copied().into_iter().collect(), None),
    }
}

/// Enters the library from a step closure that has already left it.
#[inline]
fn libr<R>(f: impl FnOnce() -> R) -> R {
    struct Was(bool);
    impl Drop for Was {
        fn drop(&mut self) {
            IN_CALL.with(|c| c.set(self.0))
        }
    }
    let _w = Was(IN_CALL.with(|c| c.replace(true)));
    let _i = In::new();
    f()
}

pub fn diff(got: &[Ent], want: &[Ent]) -> String {
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (got.get(i), want.get(i));
        if g != w {
            return format!(
                "the tree holds {} items, {} expected; first difference at position {i}: {:?} instead of {:?}",
                got.len(), want.len(), g, w
            );
        }
    }
    "identical".into()
}
