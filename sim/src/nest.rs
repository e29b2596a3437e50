//! Calls made by callbacks while another call is in progress: reads of the same tree where the
//! borrow rules allow them, and any call on trees of the callback's own.
use crate::alloc::Out;
use crate::ctx::{self, ctx, ev, fatal, op, Fault};
use crate::exec::{walk, Caught, Ent, Tree};
use crate::item::Kind;
use crate::item::{cmp_items, cmp_key, Tracked};
use crate::plan::Plan;
use crate::rng::Rng;
use raw_btree::{RawBTree, Storage};

struct Side<P: Kind, S: Storage<Tracked<P>>> {
    tree: Tree<P, S>,
    m: Vec<Ent>,
}

pub struct Nest<P: Kind, S: Storage<Tracked<P>>> {
    outer: Option<(*const Tree<P, S>, *const Vec<Ent>)>,
    sides: Vec<Side<P, S>>,
    depth: usize,
    rng: Rng,
    sim: bool,
    pub made: u32,
    next_val: u32,
}

const DEPTH: usize = 3;

/// A tree used by one thread only.
impl<P: Kind, S: Storage<Tracked<P>>> Nest<P, S>
where
    S::Node: Into<usize>,
{
    pub fn private(p: &Plan, t: u64) -> Self {
        let sides = vec![Side { tree: RawBTree::new(), m: vec![] }];
        Nest { outer: None, sides, depth: 0, rng: Rng::new(p.storage_seed ^ 0x0D0D << 8 ^ t), sim: p.storage == "sim", made: 0, next_val: (t as u32 + 2) << 24 }
    }

    /// Makes some calls on the private tree.
    pub fn own(&mut self, seed: u64, calls: u64) {
        self.rng = Rng::new(seed);
        op(|o| {
            o.byz.set(0);
            o.cmp_budget.set(u64::MAX);
            o.st_budget.set(u64::MAX);
        });
        for _ in 0..calls {
            crate::sched::yield_point(9);
            let n = self as *mut Self;
            unsafe {
                let s = &mut (&mut (*n).sides)[0] as *mut Side<P, S>;
                if (*n).rng.below(6) == 0 {
                    read(n, &(*s).tree, &(*s).m)
                } else {
                    side(n, &mut *s)
                }
            }
        }
    }
}

impl<P: Kind, S: Storage<Tracked<P>>> Nest<P, S>
where
    S::Node: Into<usize>,
{
    pub fn new(p: &Plan) -> Self {
        let sides = if p.prop == "C20" {
            (0..DEPTH).map(|_| Side { tree: RawBTree::new(), m: vec![] }).collect()
        } else {
            vec![]
        };
        Nest { outer: None, sides, depth: 0, rng: Rng::new(p.storage_seed ^ 0x4E57), sim: p.storage == "sim", made: 0, next_val: 1 << 24 }
    }

    pub fn begin(&mut self, outer: Option<(&Tree<P, S>, &Vec<Ent>)>) {
        self.outer = outer.map(|(t, m)| (t as *const _, m as *const _));
        self.depth = 0;
        self.made = 0;
    }

    pub fn items(&self) -> usize {
        self.sides.iter().map(|s| s.m.len()).sum()
    }

    pub fn nodes(&self) -> usize {
        self.sides.iter().map(|s| walk(&s.tree).ids.len()).sum()
    }

    pub fn abandon(&mut self) {
        std::mem::forget(std::mem::take(&mut self.sides))
    }

    pub fn finish(&mut self) {
        crate::exec::disarm();
        let sides = std::mem::take(&mut self.sides);
        let _ = crate::exec::lib(|| drop(sides));
    }
}

fn seen<P: Kind>(i: &Tracked<P>) -> Ent {
    let _o = Out::new();
    i.check("item seen by a callback");
    Ent { key: i.key, uid: i.uid, val: i.val }
}

fn bad(what: &str) -> ! {
    let c = ctx();
    c.what = if c.threaded { "private tree of a thread".into() } else { format!("{} (inside a callback)", c.what) };
    fatal("result", what.to_string())
}

fn must<T>(r: Result<T, Caught>, what: &str) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(Caught::Injected(_)) => None,
        Err(Caught::Unexpected(m)) => bad(&format!("{what} panicked: {m}")),
    }
}

/// Entry point of a callback that makes calls.
///
/// # Safety
/// `p` is the `Nest` of the running world.
pub unsafe fn hook<P: Kind, S: Storage<Tracked<P>>>(p: *mut ())
where
    S::Node: Into<usize>,
{
    let n = p as *mut Nest<P, S>;
    let depth = (*n).depth;
    if depth >= DEPTH {
        return;
    }
    (*n).depth += 1;
    let before = ctx().items.len();
    let k = 1 + (*n).rng.below(3);
    for _ in 0..k {
        // the call made here may be interrupted by a callback that makes calls, too
        let again = if (*n).rng.below(3) == 0 { 1 + (*n).rng.below(8) as u32 } else { 0 };
        op(|o| {
            o.reent_arm.set(again);
            o.byz.set(0);
            o.cmp_budget.set(u64::MAX);
            o.st_budget.set(u64::MAX);
        });
        match (*n).outer {
            Some((t, m)) if (*n).rng.below(2) == 0 => read(n, &*t, &*m),
            _ => {
                let s = &mut (&mut (*n).sides)[depth] as *mut Side<P, S>;
                side(n, &mut *s)
            }
        }
        op(|o| {
            for a in [&o.cmp_arm, &o.alloc_arm, &o.clone_arm, &o.reent_arm] {
                a.set(0)
            }
        });
    }
    if depth == 0 {
        (*n).made += (ctx().items.len() - before) as u32;
    }
    (*n).depth -= 1;
}

/// Reads the tree whose call is in progress.
unsafe fn read<P: Kind, S: Storage<Tracked<P>>>(n: *mut Nest<P, S>, t: &Tree<P, S>, m: &[Ent])
where
    S::Node: Into<usize>,
{
    let len = m.len();
    let pick = (*n).rng.below(len as u64 + 1) as usize;
    let kind = (*n).rng.below(9);
    ev(0x4EAD ^ kind << 16);
    if t.len() != len || t.is_empty() != (len == 0) {
        bad("length changed while a call was in progress");
    }
    match kind {
        0 | 1 => {
            let key = if pick < len { m[pick].key } else { -7_000_001 };
            let g = must(crate::exec::lib(|| t.get(cmp_key, &key).map(seen)), "get");
            if g.is_some_and(|g| g != m.get(pick).copied()) {
                bad("get did not return the stored item");
            }
        }
        2 => {
            let g = must(crate::exec::lib(|| (t.first().map(seen), t.last().map(seen))), "first/last");
            if g.is_some_and(|g| g != (m.first().copied(), m.last().copied())) {
                bad("first or last is wrong");
            }
        }
        3 | 4 => {
            let back = kind == 4;
            let g = must(
                crate::exec::lib(|| {
                    let mut v = vec![];
                    let mut it = t.iter();
                    for _ in 0..pick {
                        let x = if back { it.next_back() } else { it.next() };
                        let Some(x) = x else { break };
                        let _o = Out::new();
                        v.push(seen(x));
                    }
                    v
                }),
                "iter",
            );
            if let Some(g) = g {
                let ok = if back { g.iter().eq(m.iter().rev().take(pick)) } else { g[..] == m[..pick] };
                if !ok {
                    bad("iteration is wrong");
                }
            }
        }
        5 => {
            if pick == len {
                return;
            }
            let g = must(
                crate::exec::lib(|| {
                    let a = t.address_of(cmp_key, &m[pick].key).ok()?;
                    let x = t.get_at(a).map(seen);
                    let nx = t.next_item_address(a).and_then(|a| t.get_at(a)).map(seen);
                    let pv = t.previous_item_address(a).and_then(|a| t.get_at(a)).map(seen);
                    Some((x, nx, pv))
                }),
                "address navigation",
            );
            let want = Some((m.get(pick).copied(), m.get(pick + 1).copied(), pick.checked_sub(1).map(|i| m[i])));
            if g.is_some_and(|g| g != want) {
                bad("address navigation is wrong");
            }
        }
        6 => {
            let mut v = vec![];
            let g = must(crate::exec::lib(|| t.dot_write(&mut crate::dot::Plain(&mut v)).is_ok()), "export");
            let w = walk(t);
            if let Some(ok) = g {
                let r = crate::exec::faithful(t, &w, &v);
                if !ok || r.is_err() {
                    bad(&format!("export is not faithful: {}", r.err().unwrap_or_default()));
                }
            }
        }
        7 => {
            let g = must(
                crate::exec::lib(|| {
                    let (mut nodes, mut items) = (0, 0);
                    t.visit_from_leaves(|id| {
                        let _o = Out::new();
                        nodes += 1;
                        items += t.node(id).item_count();
                        ctx::reent();
                    });
                    (nodes, items)
                }),
                "visit",
            );
            if g.is_some_and(|g| g.1 != len) {
                bad("visit missed items");
            }
        }
        _ => {
            let c = must(crate::exec::lib(|| t.clone()), "clone");
            if let Some(c) = c {
                let w = walk(&c);
                if w.err.is_some() || c.len() != len || !w.items.iter().map(|e| (e.key, e.val)).eq(m.iter().map(|e| (e.key, e.val))) {
                    bad("clone differs from the tree");
                }
                must(crate::exec::lib(|| drop(c)), "drop of a clone");
            }
        }
    }
}

/// Any call on a tree of the callback's own.
unsafe fn side<P: Kind, S: Storage<Tracked<P>>>(n: *mut Nest<P, S>, s: &mut Side<P, S>)
where
    S::Node: Into<usize>,
{
    let kind = (*n).rng.below(16);
    let key = ((*n).rng.below(400) as i64) << 8;
    let sel = (*n).rng.below(s.m.len() as u64 + 1) as usize;
    let key = if sel < s.m.len() && kind >= 5 { s.m[sel].key } else { key };
    let abort = match (*n).rng.below(6) {
        0 => Fault::Cmp,
        1 if (*n).sim => Fault::Alloc,
        _ => Fault::None,
    };
    let at = 1 + (*n).rng.below(6) as u32;
    (*n).next_val += 1;
    let val = (*n).next_val;
    ev(0x51DE ^ kind << 16);
    let arm = || {
        op(|o| match abort {
            Fault::Cmp => o.cmp_arm.set(at),
            Fault::Alloc => o.alloc_arm.set(1),
            _ => (),
        })
    };
    let disarm = || {
        op(|o| {
            if o.fired.get() == Fault::Cmp as u8 || o.fired.get() == Fault::Alloc as u8 {
                ctx::count(Fault::InnerAbort);
            }
            o.fired.set(0);
            o.cmp_arm.set(0);
            o.alloc_arm.set(0)
        })
    };
    let pos = s.m.binary_search_by(|e| e.key.cmp(&key));
    match kind {
        0..=5 => {
            let many = if kind == 0 { 1 + (*n).rng.below(30) } else { 1 };
            for j in 0..many {
                let key = key + 256 * j as i64;
                let pos = s.m.binary_search_by(|e| e.key.cmp(&key));
                let it = Tracked::new(key, val);
                let e = seen(&it);
                if many == 1 {
                    arm();
                }
                let r = must(crate::exec::lib(|| s.tree.insert(cmp_items, it)), "insert");
                disarm();
                if let Some(old) = r {
                    let want = pos.ok().map(|i| s.m[i]);
                    if old.as_ref().map(seen) != want {
                        bad("insert on another tree returned the wrong item");
                    }
                    match pos {
                        Ok(i) => s.m[i] = e,
                        Err(i) => s.m.insert(i, e),
                    }
                    drop(old);
                } else if crate::ctx::destroyable(e.uid) {
                    bad("item of an aborted insertion was not destroyed");
                }
            }
        }
        6..=10 => {
            arm();
            let r = must(crate::exec::lib(|| s.tree.remove(cmp_key, &key)), "remove");
            disarm();
            if let Some(old) = r {
                if old.as_ref().map(seen) != pos.ok().map(|i| s.m[i]) {
                    bad("remove on another tree returned the wrong item");
                }
                if let Ok(i) = pos {
                    s.m.remove(i);
                }
            }
        }
        11 | 12 => {
            arm();
            let r = must(crate::exec::lib(|| s.tree.get(cmp_key, &key).map(seen)), "get");
            disarm();
            if r.is_some_and(|g| g != pos.ok().map(|i| s.m[i])) {
                bad("get on another tree is wrong");
            }
        }
        13 => {
            let r = must(
                crate::exec::lib(|| {
                    s.tree.clear();
                }),
                "clear",
            );
            if r.is_some() {
                s.m.clear();
            }
        }
        14 => {
            let mut t: Tree<P, S> = RawBTree::new();
            std::mem::swap(&mut t, &mut s.tree);
            let m = std::mem::take(&mut s.m);
            let r = must(
                crate::exec::lib(|| {
                    let mut it = t.into_iter();
                    let mut v: Vec<Tracked<P>> = vec![];
                    for _ in 0..sel {
                        let Some(x) = it.next() else { break };
                        let _o = Out::new();
                        v.push(x);
                    }
                    v
                }),
                "into_iter",
            );
            if let Some(v) = r {
                if !v.iter().map(seen).eq(m[..sel].iter().copied()) {
                    bad("owning iteration of another tree is wrong");
                }
            }
        }
        _ => {
            let r = must(crate::exec::lib(|| s.tree.clone()), "clone");
            if let Some(c) = r {
                let w = walk(&c);
                if w.err.is_some() || !w.items.iter().map(|e| (e.key, e.val)).eq(s.m.iter().map(|e| (e.key, e.val))) {
                    bad("clone of another tree differs");
                }
                let old = std::mem::replace(&mut s.tree, c);
                s.m = w.items;
                must(crate::exec::lib(|| drop(old)), "drop");
            }
        }
    }
    let w = walk(&s.tree);
    if let Some((_, m)) = &w.err {
        bad(&format!("another tree is malformed: {m}"));
    }
    if s.tree.len() != s.m.len() || w.items != s.m {
        bad("another tree does not hold its items");
    }
}
