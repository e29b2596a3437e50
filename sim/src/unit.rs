//! Trees of zero-sized items: items without address of their own, that compare equal, and of which
//! only the number can be known. With a destructor (counted), with an alignment, and with neither.
use crate::alloc::{In, Out};
use crate::ctx::{self, ctx, op, tick, Fault};
use crate::exec::{lib, Caught};
use crate::plan::{Op, Step};
use crate::rng::Rng;
use raw_btree::{RawBTree, Storage};
use std::cell::Cell;
use std::cmp::Ordering;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

pub trait Nil: Clone + 'static {
    const COUNTED: bool;
    fn new() -> Self;
}
impl Nil for () {
    const COUNTED: bool = false;
    fn new() {}
}
pub struct Token;
impl Nil for Token {
    const COUNTED: bool = true;
    fn new() -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Token
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        let _o = Out::new();
        if op(|o| tick(&o.clone_arm, Fault::Clone)) {
            ctx().leak_tol = true;
            ctx::inject(Fault::Clone)
        }
        Token::new()
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
/// Zero-sized, but aligned.
#[repr(align(64))]
#[derive(Clone)]
pub struct Wide(#[allow(dead_code)] Token);
impl Nil for Wide {
    const COUNTED: bool = true;
    fn new() -> Self {
        Wide(Token::new())
    }
}

fn cmp<T>(a: &T, b: &T) -> Ordering {
    let _o = Out::new();
    if a as *const T as usize % std::mem::align_of::<T>() != 0 || b as *const T as usize % std::mem::align_of::<T>() != 0 {
        ctx::fatal("item-integrity", "misaligned reference to an item".into());
    }
    if op(|o| tick(&o.cmp_arm, Fault::Cmp)) {
        ctx::inject(Fault::Cmp)
    }
    Ordering::Equal
}

/// Number of items found by walking the nodes; the shape is checked.
fn shape<T, S: Storage<T>>(t: &RawBTree<T, S>) -> Result<usize, String> {
    fn rec<T, S: Storage<T>>(t: &RawBTree<T, S>, id: S::Node, parent: Option<S::Node>, depth: usize, leaf: &mut Option<usize>) -> Result<usize, String> {
        let node = unsafe { t.node(id) };
        let n = node.item_count();
        if node.parent() != parent {
            return Err(format!("wrong parent at depth {depth}"));
        }
        if depth > 40 || n == 0 || n > raw_btree::M || (parent.is_some() && n < raw_btree::M / 2 - 1) {
            return Err(format!("node with {n} items at depth {depth}"));
        }
        if (0..n).any(|i| node.item(i.into()).is_none()) || node.item(n.into()).is_some() {
            return Err(format!("items missing in a node at depth {depth}"));
        }
        let mut total = n;
        let c = node.child_count();
        if c == 0 {
            if *leaf.get_or_insert(depth) != depth {
                return Err("leaves at different depths".into());
            }
        } else if c != n + 1 {
            return Err(format!("{c} children for {n} items"));
        }
        for k in 0..c {
            let Some(child) = node.child_id_opt(k) else { return Err("missing child".into()) };
            total += rec(t, child, Some(id), depth + 1, leaf)?;
        }
        Ok(total)
    }
    match t.root() {
        Some(r) => rec(t, r, None, 0, &mut None),
        None => Ok(0),
    }
}

/// Runs a short history of such a tree. Returns what is wrong, as (class, message).
pub fn run<T: Nil, S: Storage<T>>(st: &Step) -> Result<(), (&'static str, String)> {
    let mut r = Rng::new(st.b as u64 ^ 0x2E50);
    let base = LIVE.with(|l| l.get());
    // items that may never be destroyed (copies of an aborted clone)
    let mut slack = 0i64;
    // items that are never destroyed (forgotten, or left in a leaked iterator)
    let mut gone = 0i64;
    let was = ctx().cur;
    let mut n = 0usize;
    let mut what;
    let mut tree: Option<RawBTree<T, S>> = Some({
        let _i = In::new();
        RawBTree::new()
    });
    for b in &st.script {
        let t = tree.as_mut().unwrap();
        let k = r.below(n as u64 + 1) as usize;
        let front = r.below(2) == 0;
        let m = n;
        ctx().cur = match b & 15 {
            6 => Op::Iter,
            7 => Op::IterM,
            8 | 9 => Op::Into,
            10 => Op::Clone,
            _ => was,
        };
        // every arm returns a complaint, or nothing
        let res: Result<Option<String>, Caught> = match b & 15 {
            0 => {
                what = "insert";
                lib(|| {
                    let old = t.insert(cmp::<T>, T::new()).is_some();
                    n = m.max(1);
                    (old != (m > 0)).then(|| format!("returned {old} on {m} items"))
                })
            }
            1 => {
                what = "get";
                lib(|| {
                    let g = (t.get(cmp::<T>, &T::new()).is_some(), t.get_mut(cmp::<T>, &T::new()).is_some(), t.first().is_some(), t.last().is_some());
                    (g != (m > 0, m > 0, m > 0, m > 0)).then(|| format!("found {g:?} in {m} items"))
                })
            }
            2 => {
                what = "remove";
                lib(|| {
                    let old = t.remove(cmp::<T>, &T::new()).is_some();
                    n = m.saturating_sub(1);
                    (old != (m > 0)).then(|| format!("returned {old} on {m} items"))
                })
            }
            3 | 4 => {
                // by address, at either end or anywhere
                what = "insert_at";
                let count = if b & 15 == 3 { 1 } else { 1 + (b >> 4) as usize * 4 };
                lib(|| unsafe {
                    for _ in 0..count {
                        let a = if front || n == 0 {
                            t.first_item_address()
                        } else {
                            let mut a = t.first_item_address();
                            for _ in 0..k.min(n - 1) {
                                a = t.next_item_address(a.unwrap());
                            }
                            a
                        };
                        let a = t.insert_at(a, T::new());
                        n += 1;
                        if a.and_then(|a| t.get_at(a)).is_none() {
                            return Some("returned the address of no item".to_string());
                        }
                    }
                    None
                })
            }
            5 | 11 => {
                what = "remove_at";
                let count = if b & 15 == 5 { 1 } else { (b >> 4) as usize * 4 };
                lib(|| unsafe {
                    for _ in 0..count.min(m) {
                        let mut a = t.first_item_address().unwrap();
                        for _ in 0..k.min(n - 1) {
                            a = match t.next_item_address(a) {
                                Some(a) => a,
                                None => return Some(format!("only {k} items found instead of {n}")),
                            };
                        }
                        if t.remove_at(a).is_none() {
                            return Some(format!("found nothing at item {k} of {n}"));
                        }
                        n -= 1;
                    }
                    None
                })
            }
            6 | 7 => {
                let mutable = b & 15 == 7;
                what = if mutable { "iter_mut" } else { "iter" };
                lib(|| {
                    macro_rules! count {
                        ($it:expr) => {{
                            let mut it = $it;
                            let mut c = 0;
                            loop {
                                if it.size_hint() != (m - c, Some(m - c)) {
                                    return Some(format!("announces {:?} items after {c} of {m}", it.size_hint()));
                                }
                                let x = if front ^ (c % 3 == 0) { it.next().is_some() } else { it.next_back().is_some() };
                                if x != (c < m) {
                                    return Some(format!("yields {c} items instead of {m}"));
                                }
                                if !x {
                                    break;
                                }
                                c += 1;
                            }
                            None
                        }};
                    }
                    if mutable {
                        count!(t.iter_mut())
                    } else {
                        count!(t.iter())
                    }
                })
            }
            8 | 9 => {
                // k items from one end, then some from the other; the rest is dropped, or leaked
                what = "into_iter";
                let leak = b & 0xf1 == 0xf1;
                let x = tree.take().unwrap();
                let mut left = m;
                let res = lib(|| {
                    let mut it = x.into_iter();
                    let mut kept = vec![];
                    for i in 0..k {
                        let x = if front ^ (i % 4 == 3) { it.next() } else { it.next_back() };
                        if x.is_none() {
                            return Some(format!("yields {i} items instead of {m}"));
                        }
                        left -= 1;
                        kept.extend(x);
                    }
                    if it.len() != left {
                        return Some(format!("announces {} items instead of {left}", it.len()));
                    }
                    if leak {
                        std::mem::forget(it);
                    } else if b & 32 != 0 && it.by_ref().count() != left {
                        return Some(format!("counts other than the {left} items left"));
                    }
                    None
                });
                if leak {
                    ctx().leak_tol = true;
                    gone += left as i64;
                }
                n = 0;
                tree = Some({
                    let _i = In::new();
                    RawBTree::new()
                });
                res
            }
            10 => {
                what = "clone";
                let res = lib(|| {
                    let mut c = t.clone();
                    if c.len() != m || c.iter().count() != m {
                        return Some(format!("has {} items instead of {m}", c.len()));
                    }
                    if b & 16 != 0 {
                        std::mem::swap(&mut c, t)
                    }
                    None
                });
                if matches!(res, Err(Caught::Injected(_))) {
                    slack += m as i64;
                    ctx().leak_tol = true;
                }
                res
            }
            12 => {
                what = "clear";
                n = 0;
                lib(|| {
                    t.clear();
                    None
                })
            }
            13 => {
                what = "forget";
                n = 0;
                gone += m as i64;
                let kept = LIVE.with(|l| l.get());
                let res = lib(|| {
                    t.forget();
                    None
                });
                if T::COUNTED && LIVE.with(|l| l.get()) != kept {
                    return Err(("forgotten-dropped", "forget destroyed items".into()));
                }
                res
            }
            14 => {
                what = "visit";
                lib(|| {
                    let (mut c, mut d) = (0, 0);
                    t.visit_from_leaves(|_| c += 1);
                    let mut items = 0;
                    t.visit_from_leaves_mut(|_, node| {
                        d += 1;
                        items += node.item_count();
                    });
                    (c != d || items != m).then(|| format!("{c} nodes seen, then {d} with {items} items instead of {m}"))
                })
            }
            _ => {
                what = "replace_at";
                lib(|| unsafe {
                    if let Some(a) = t.first_item_address() {
                        drop(t.replace_at(a, T::new()));
                    }
                    None
                })
            }
        };
        match res {
            Ok(None) => (),
            Ok(Some(m)) => return Err(("result", format!("{what} on a tree of zero-sized items {m}"))),
            Err(Caught::Injected(_)) => (),
            Err(Caught::Unexpected(m)) => return Err(("panic", format!("{what} on a tree of zero-sized items panicked: {m}"))),
        }
        let t = tree.as_ref().unwrap();
        if t.len() != n || t.is_empty() != (n == 0) {
            return Err(("len", format!("{} zero-sized items after {what}, {n} expected", t.len())));
        }
        match shape(t) {
            Ok(c) if c == n => (),
            Ok(c) => return Err(("content", format!("{c} zero-sized items in the nodes after {what}, {n} expected"))),
            Err(e) => return Err(("shape", format!("tree of {n} zero-sized items after {what}: {e}"))),
        }
        let live = LIVE.with(|l| l.get()) - base - gone;
        if T::COUNTED && (live < n as i64 || live > n as i64 + slack) {
            return Err(("own", format!("{live} zero-sized items alive after {what}, {n} stored")));
        }
    }
    ctx().cur = was;
    if lib(|| drop(tree)).is_err() {
        return Err(("panic", "dropping a tree of zero-sized items panicked".into()));
    }
    let live = LIVE.with(|l| l.get()) - base - gone;
    if T::COUNTED && (live < 0 || live > slack) {
        return Err(("own", format!("{live} zero-sized items alive after their tree")));
    }
    Ok(())
}

