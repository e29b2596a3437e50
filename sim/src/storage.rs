//! Simulated node storage: conforms to the `Storage` contract while choosing identifiers, reuse,
//! placement, dropper and allocation failures as the run's seed says, and checks every request.
use crate::alloc::{In, Out};
use crate::ctx::{self, count, ctx, ev, fatal, op, tick, Fault, StRec, StoragePolicy};
use crate::rng::{mix, Rng};
use raw_btree::storage::Dropper;
use raw_btree::{Node, Storage};
use std::cell::UnsafeCell;
use std::collections::VecDeque;

/// Identifier given to the library. Only `raw` takes part in equality, as in a real slab; the
/// generation and the storage number are there to recognise stale or foreign identifiers.
#[derive(Clone, Copy)]
pub struct SimId {
    raw: u32,
    gen: u32,
    sid: u32,
}
impl PartialEq for SimId {
    fn eq(&self, o: &SimId) -> bool {
        self.raw == o.raw
    }
}
impl std::fmt::Debug for SimId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.raw)
    }
}
impl From<SimId> for usize {
    fn from(x: SimId) -> usize {
        x.raw as usize
    }
}
impl SimId {
    pub fn sid(&self) -> u32 {
        self.sid
    }
}

struct Slot<T> {
    gen: u32,
    node: Option<Box<Node<T, SimStorage<T>>>>,
}

struct Inner<T> {
    slots: Vec<Slot<T>>,
    free: VecDeque<u32>,
}

pub struct SimStorage<T> {
    sid: u32,
    policy: StoragePolicy,
    inner: UnsafeCell<Inner<T>>,
}
// Only one simulated thread runs at a time.
unsafe impl<T: Send> Send for SimStorage<T> {}
unsafe impl<T: Sync> Sync for SimStorage<T> {}

impl<T> Default for SimStorage<T> {
    fn default() -> Self {
        let _o = Out::new();
        let c = ctx();
        let sid = c.storages.len() as u32;
        c.storages.push(StRec { active: 0, alive: true });
        let policy = c.storage_fixed.unwrap_or_else(|| {
            let mut r = Rng::new(mix(&[c.storage_seed, sid as u64]));
            StoragePolicy {
                reuse: r.below(4) as u8,
                reloc: [0, 0, 100, 1000][r.below(4) as usize],
                dropper: r.below(3) != 0,
                base: [0, 1, 7, 1000][r.below(4) as usize],
                stride: [1, 1, 3][r.below(3) as usize],
            }
        });
        SimStorage {
            sid,
            policy,
            inner: UnsafeCell::new(Inner { slots: Vec::new(), free: VecDeque::new() }),
        }
    }
}

impl<T> SimStorage<T> {
    #[allow(clippy::mut_from_ref)]
    unsafe fn inner(&self) -> &mut Inner<T> {
        &mut *self.inner.get()
    }

    /// Index of the slot of an active identifier; anything else is a protocol violation.
    #[inline]
    unsafe fn locate(&self, id: SimId, what: &str) -> usize {
        let stuck = op(|o| {
            if o.quiet.get() {
                return false;
            }
            let n = o.st_calls.get() + 1;
            o.st_calls.set(n);
            n > o.st_budget.get()
        });
        if stuck {
            fatal("no-progress", format!("call exceeded its node access budget (in {what})"));
        }
        if id.sid != self.sid {
            fatal("storage-protocol", format!("{what}: identifier belongs to another tree's storage"));
        }
        let idx = id.raw.wrapping_sub(self.policy.base) / self.policy.stride;
        match self.inner().slots.get(idx as usize) {
            Some(s) if s.gen == id.gen && s.node.is_some() => idx as usize,
            _ => fatal("storage-protocol", format!("{what}: identifier is not active")),
        }
    }

    unsafe fn take(&self, id: SimId, what: &str) -> Box<Node<T, Self>> {
        let idx = self.locate(id, what);
        let inner = self.inner();
        let node = inner.slots[idx].node.take().unwrap();
        inner.slots[idx].gen += 1;
        inner.free.push_back(idx as u32);
        ctx().storages[self.sid as usize].active -= 1;
        op(|o| o.releases.set(o.releases.get() + 1));
        ev(0x5E1E_0000_0000 + idx as u64);
        node
    }
}

unsafe impl<T> Storage<T> for SimStorage<T> {
    type Node = SimId;
    type Dropper = SimDropper<T>;

    fn allocate_node(&mut self, node: Node<T, Self>) -> SimId {
        let _o = Out::new();
        ctx::reent();
        if op(|o| !o.quiet.get() && tick(&o.alloc_arm, Fault::Alloc)) {
            ctx::inject(Fault::Alloc)
        }
        let c = ctx();
        let sid = self.sid;
        let p = self.policy;
        let inner = self.inner.get_mut();
        let boxed = {
            let _i = In::new();
            Box::new(node)
        };
        let reused = if inner.free.is_empty() {
            None
        } else {
            match p.reuse {
                0 => inner.free.pop_back(),
                1 => inner.free.pop_front(),
                2 => {
                    let k = c.rng_st.below(inner.free.len() as u64 + 1) as usize;
                    inner.free.remove(k)
                }
                _ => None,
            }
        };
        let idx = match reused {
            Some(i) => {
                count(Fault::IdReuse);
                inner.slots[i as usize].node = Some(boxed);
                i as usize
            }
            None => {
                inner.slots.push(Slot { gen: 0, node: Some(boxed) });
                inner.slots.len() - 1
            }
        };
        if p.reloc > 0 && c.rng_st.permille(p.reloc as u64) {
            // like a slab that grows: every live node moves
            count(Fault::Relocate);
            let n = inner.slots.len();
            let from = if n <= 64 { 0 } else { c.rng_st.below(n as u64) as usize };
            for k in 0..n.min(64) {
                let s = &mut inner.slots[(from + k) % n];
                if let Some(b) = s.node.take() {
                    let _i = In::new();
                    s.node = Some(Box::new(*b));
                }
            }
        }
        c.storages[sid as usize].active += 1;
        op(|o| o.allocs.set(o.allocs.get() + 1));
        ev(0xA110_0000_0000 + idx as u64);
        SimId { raw: p.base + idx as u32 * p.stride, gen: inner.slots[idx].gen, sid }
    }

    unsafe fn release_node(&mut self, id: SimId) -> Node<T, Self> {
        let _o = Out::new();
        *self.take(id, "release_node")
    }

    fn start_dropping(&self) -> Option<SimDropper<T>> {
        if self.policy.dropper {
            Some(SimDropper(self as *const _))
        } else {
            None
        }
    }

    unsafe fn get(&self, id: SimId) -> &Node<T, Self> {
        let _o = Out::new();
        let idx = self.locate(id, "get");
        crate::sched::yield_point(2);
        self.inner().slots[idx].node.as_ref().unwrap()
    }

    unsafe fn get_mut(&mut self, id: SimId) -> &mut Node<T, Self> {
        let _o = Out::new();
        let idx = self.locate(id, "get_mut");
        self.inner().slots[idx].node.as_mut().unwrap()
    }
}

impl<T> Drop for SimStorage<T> {
    fn drop(&mut self) {
        let _o = Out::new();
        let c = ctx();
        c.storages[self.sid as usize].alive = false;
        let active = c.storages[self.sid as usize].active;
        if active > 0 && self.policy.dropper && !c.leak_tol && (!std::thread::panicking() || ctx::op(|o| o.unwinding.get())) {
            fatal(
                "storage-protocol",
                format!("{active} node(s) never given back when their storage was dropped"),
            );
        }
        c.storages[self.sid as usize].active = 0;
        ev(0xD57A + active as u64);
        // the remaining nodes die with the storage (dropper: None)
        let slots = std::mem::take(&mut self.inner.get_mut().slots);
        let mut first = None;
        for s in slots {
            if let Some(n) = s.node {
                // keep going if an item destructor panics, as dropping a Vec would
                if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(n))) {
                    first.get_or_insert(e);
                }
            }
        }
        if let Some(e) = first {
            std::panic::resume_unwind(e)
        }
    }
}

pub struct SimDropper<T>(*const SimStorage<T>);

unsafe impl<T> Dropper<T, SimStorage<T>> for SimDropper<T> {
    unsafe fn drop_node(&mut self, id: SimId) {
        let _o = Out::new();
        let node = (*self.0).take(id, "drop_node");
        drop(node);
    }
}
