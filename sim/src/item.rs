//! Items stored in the simulated trees. Every item is registered, knows whether it is alive, and
//! carries redundant fields so that reading moved-from, freed or never-written memory shows.
use crate::alloc::Out;
use crate::ctx::{self, count, ctx, ev, fatal, op, tick, Class, Fault, ItemRec};
use std::cmp::Ordering;

const MAGIC: u64 = 0x17E4_A11F_E000_0000;
const DEAD: u64 = 0xDEAD_17E4_0000_0000;

/// Kinds of items: with or without a destructor, of several sizes and alignments.
pub trait Kind: 'static {
    const CODE: u8;
    const NAME: &'static str;
    const HAS_DROP: bool = <Self::Core as Core>::TRACKED;
    type Core: Core;
    type Pad: Copy;
    const PAD: Self::Pad;
    fn pad_ok(_: &Self::Pad) -> bool {
        true
    }
}
pub trait Core {
    const TRACKED: bool;
    fn new(uid: u32) -> Self;
    fn magic(&self) -> u64;
}
/// Has a destructor.
pub struct Live(u64, u32);
/// Has none (`needs_drop` is false).
pub struct Inert(u64);
impl Core for Live {
    const TRACKED: bool = true;
    fn new(uid: u32) -> Self {
        Live(MAGIC ^ uid as u64, uid)
    }
    fn magic(&self) -> u64 {
        self.0
    }
}
impl Core for Inert {
    const TRACKED: bool = false;
    fn new(uid: u32) -> Self {
        Inert(MAGIC ^ uid as u64)
    }
    fn magic(&self) -> u64 {
        self.0
    }
}

pub struct Small;
impl Kind for Small {
    const CODE: u8 = 0;
    const NAME: &'static str = "small items";
    type Core = Live;
    type Pad = ();
    const PAD: () = ();
}
pub struct Bare;
impl Kind for Bare {
    const CODE: u8 = 1;
    const NAME: &'static str = "items without destructor";
    type Core = Inert;
    type Pad = ();
    const PAD: () = ();
}
#[derive(Clone, Copy)]
#[repr(align(64))]
pub struct Block([u8; 104]);
pub struct Large;
impl Kind for Large {
    const CODE: u8 = 104;
    const NAME: &'static str = "large items (192 bytes, aligned to 64)";
    type Core = Live;
    type Pad = Block;
    const PAD: Block = Block([0xA7; 104]);
    fn pad_ok(p: &Block) -> bool {
        p as *const Block as usize % 64 == 0 && p.0.iter().all(|b| *b == 0xA7)
    }
}

#[repr(C)]
pub struct Tracked<P: Kind> {
    core: P::Core,
    pub key: i64,
    pub uid: u32,
    pub val: u32,
    pad: P::Pad,
}

impl<P: Kind> Tracked<P> {
    pub fn new(key: i64, val: u32) -> Self {
        let c = ctx();
        let uid = c.items.len() as u32;
        let class = if P::Core::TRACKED { Class::Normal } else { Class::MayLeak };
        c.items.push(ItemRec { live: true, class });
        c.live_normal += P::Core::TRACKED as i64;
        Tracked { core: P::Core::new(uid), key, uid, val, pad: P::PAD }
    }

    /// Panics the run if this is not a live, intact item.
    #[inline]
    pub fn check(&self, what: &str) {
        // A misaligned or wild reference would already have crashed; the rest is checked here.
        if self.core.magic() != MAGIC ^ self.uid as u64 {
            let why = if self.core.magic() == DEAD ^ self.uid as u64 {
                format!("item #{} used after it was destroyed", self.uid)
            } else {
                "memory that holds no item was used as an item".to_string()
            };
            fatal("item-integrity", format!("{why} ({what})"));
        }
        let c = ctx();
        match c.items.get(self.uid as usize) {
            Some(r) if r.live => (),
            _ => fatal("item-integrity", format!("stale copy of destroyed item #{} used ({what})", self.uid)),
        }
        if !P::pad_ok(&self.pad) {
            fatal("item-integrity", format!("item #{} content damaged ({what})", self.uid));
        }
    }
}

impl Drop for Live {
    fn drop(&mut self) {
        let _o = Out::new();
        let uid = self.1;
        if self.0 != MAGIC ^ uid as u64 {
            if self.0 == DEAD ^ uid as u64 {
                fatal("double-drop", format!("item #{uid} destroyed twice"));
            }
            fatal("item-integrity", "destructor run on memory that holds no item".into());
        }
        let c = ctx();
        match c.items.get_mut(uid as usize) {
            None => fatal("item-integrity", "destructor run on memory that holds no item".into()),
            Some(r) => {
                if !r.live {
                    fatal("double-drop", format!("item #{uid} destroyed twice"));
                }
                if r.class == Class::Forgotten {
                    fatal("forgotten-dropped", format!("forgotten item #{uid} destroyed"));
                }
                r.live = false;
                if r.class == Class::Normal {
                    c.live_normal -= 1;
                }
            }
        }
        self.0 = DEAD ^ uid as u64;
        let fire = op(|o| {
            o.drops.set(o.drops.get() + 1);
            !o.quiet.get() && !std::thread::panicking() && tick(&o.drop_arm, Fault::Drop)
        });
        ev(0xD0_0000_0000 + uid as u64);
        ctx::reent();
        if fire {
            ctx::ctx().leak_tol = true;
            ctx::inject(Fault::Drop)
        }
    }
}

impl<P: Kind> Clone for Tracked<P> {
    fn clone(&self) -> Self {
        let _o = Out::new();
        self.check("clone");
        let fire = op(|o| {
            o.clones.set(o.clones.get() + 1);
            !o.quiet.get() && tick(&o.clone_arm, Fault::Clone)
        });
        if fire {
            ctx::ctx().leak_tol = true;
            ctx::inject(Fault::Clone)
        }
        crate::sched::yield_point(3);
        ctx::reent();
        Tracked::new(self.key, self.val)
    }
}

impl<P: Kind> std::fmt::Display for Tracked<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let _o = Out::new();
        self.check("display");
        if op(|o| !o.quiet.get() && tick(&o.fmt_arm, Fault::Fmt)) {
            ctx::inject(Fault::Fmt)
        }
        ctx::reent();
        write!(f, "k{}u{}", self.key, self.uid)
    }
}

impl<P: Kind> std::fmt::Debug for Tracked<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}u{}", self.key, self.uid)
    }
}

/// Common part of the comparison seam: counts, bounds, yields, faults.
#[inline]
fn seam(honest: Ordering) -> Ordering {
    enum A {
        Honest,
        Panic,
        Stuck,
        Lie(u64, u8, u64),
    }
    let act = op(|o| {
        if o.quiet.get() {
            return A::Honest;
        }
        let n = o.cmp_calls.get() + 1;
        o.cmp_calls.set(n);
        if n > o.cmp_budget.get() {
            return A::Stuck;
        }
        if tick(&o.cmp_arm, Fault::Cmp) {
            return A::Panic;
        }
        let mut s = o.byz.get();
        if s != 0 {
            let r = crate::rng::splitmix(&mut s);
            if o.byz_mode.get() < 8 {
                o.byz.set(s | 1);
            }
            return A::Lie(r, o.byz_mode.get(), n);
        }
        A::Honest
    });
    let r = match act {
        A::Honest => honest,
        A::Panic => ctx::inject(Fault::Cmp),
        A::Stuck => fatal("no-progress", "call exceeded its comparison budget".into()),
        A::Lie(r, mode, n) => {
            const ANY: [Ordering; 3] = [Ordering::Less, Ordering::Greater, Ordering::Equal];
            // modes from 8 on: `r` is the same at every comparison, `n` counts them
            let early = n <= 1 + (r >> 20) % 9;
            let lie = match mode {
                0 => [Ordering::Less, Ordering::Equal, Ordering::Greater][(r >> 33) as usize % 3],
                1 => [Ordering::Less, Ordering::Greater][(r >> 33) as usize % 2],
                2 => honest.reverse(),
                3 => Ordering::Less,
                4 => Ordering::Greater,
                5 => Ordering::Equal,
                6 => {
                    if (r >> 33) % 4 == 0 {
                        [Ordering::Less, Ordering::Equal, Ordering::Greater][(r >> 40) as usize % 3]
                    } else {
                        honest
                    }
                }
                7 => {
                    if honest == Ordering::Equal {
                        [Ordering::Less, Ordering::Greater][(r >> 33) as usize % 2]
                    } else {
                        honest
                    }
                }
                8 if early => honest,
                8 => ANY[(r >> 33) as usize % 3],
                9 => ANY[(if early { r >> 36 } else { r >> 33 }) as usize % 3],
                10 => ANY[(r >> (36 + n % (2 + (r >> 33) % 4) * 4)) as usize % [2, 3][(r >> 60) as usize % 2]],
                _ if early => honest,
                _ => honest.reverse(),
            };
            if lie != honest {
                count(Fault::Byz);
            }
            lie
        }
    };
    crate::sched::yield_point(1);
    ctx::reent();
    r
}

/// Comparison of two items, as passed to the library.
pub fn cmp_items<P: Kind>(a: &Tracked<P>, b: &Tracked<P>) -> Ordering {
    let _o = Out::new();
    a.check("comparison (stored item)");
    b.check("comparison (given item)");
    let honest = if ctx().via_item {
        raw_btree::Item::new(a.key, a.val).cmp(&raw_btree::Item::new(b.key, b.val))
    } else {
        a.key.cmp(&b.key)
    };
    seam(honest)
}

/// Comparison of an item with a key, as passed to the library.
pub fn cmp_key<P: Kind>(a: &Tracked<P>, key: &i64) -> Ordering {
    let _o = Out::new();
    a.check("comparison (stored item)");
    let honest = if ctx().via_item {
        raw_btree::Item::new(a.key, a.val).key_cmp(key)
    } else {
        a.key.cmp(key)
    };
    seam(honest)
}

/// Plain comparison, for the harness.
#[cfg(debug_assertions)]
pub fn plain_cmp<P: Kind>(a: &Tracked<P>, b: &Tracked<P>) -> Ordering {
    a.key.cmp(&b.key)
}
