//! Trees damaged on purpose: does the crate's validator see it? Nodes are changed through the public
//! node API of a private copy of the tree; what is then broken, if anything, is decided by the walker.
#![cfg(debug_assertions)]
use crate::ctx::{ctx, Quiet};
use crate::exec::{lib, walk, Caught, Tree};
use crate::item::{plain_cmp, Kind, Tracked};
use crate::rng::Rng;
use raw_btree::{Node, Offset, Storage, M};

struct Found<N> {
    id: N,
    parent: Option<N>,
    depth: usize,
    leaf: bool,
}

fn nodes<P: Kind, S: Storage<Tracked<P>>>(t: &Tree<P, S>) -> Vec<Found<S::Node>> {
    fn rec<P: Kind, S: Storage<Tracked<P>>>(t: &Tree<P, S>, id: S::Node, parent: Option<S::Node>, depth: usize, v: &mut Vec<Found<S::Node>>) {
        let node = unsafe { t.node(id) };
        v.push(Found { id, parent, depth, leaf: node.child_count() == 0 });
        for c in node.children() {
            rec(t, c, Some(id), depth + 1, v)
        }
    }
    let mut v = vec![];
    if let Some(r) = t.root() {
        rec(t, r, None, 0, &mut v)
    }
    v
}

/// In-order places of the items.
fn places<P: Kind, S: Storage<Tracked<P>>>(t: &Tree<P, S>) -> Vec<(S::Node, usize)> {
    fn rec<P: Kind, S: Storage<Tracked<P>>>(t: &Tree<P, S>, id: S::Node, v: &mut Vec<(S::Node, usize)>) {
        let node = unsafe { t.node(id) };
        for i in 0..=node.item_count() {
            if let Some(c) = node.child_id_opt(i) {
                rec(t, c, v)
            }
            if i < node.item_count() {
                v.push((id, i))
            }
        }
    }
    let mut v = vec![];
    if let Some(r) = t.root() {
        rec(t, r, &mut v)
    }
    v
}

/// Gives all items increasing keys again.
fn rekey<P: Kind, S: Storage<Tracked<P>>>(t: &mut Tree<P, S>) {
    for (k, (id, i)) in places(t).into_iter().enumerate() {
        if let Some(x) = unsafe { t.node_mut(id) }.item_mut(i.into()) {
            x.key = 2 * k as i64
        }
    }
}

pub const KINDS: [&str; 10] = [
    "nothing", "an item equal to the next one", "two items exchanged", "an item out of its place", "a wrong parent link",
    "a parent above the root", "a leaf with too few items", "a leaf with too many items", "items moved between internal nodes",
    "a leaf and a subtree exchanged",
];

/// Damages the tree. Items taken out are returned.
fn damage<P: Kind, S: Storage<Tracked<P>>>(t: &mut Tree<P, S>, kind: usize, r: &mut Rng) -> Vec<Tracked<P>> {
    let all = nodes(t);
    let at = places(t);
    let n = at.len();
    let mut out = vec![];
    let mut pick = |ok: &dyn Fn(&Found<S::Node>) -> bool| -> Option<usize> {
        let v: Vec<usize> = (0..all.len()).filter(|i| ok(&all[*i])).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[r.below(v.len() as u64) as usize])
        }
    };
    unsafe {
        let key = |t: &Tree<P, S>, k: usize| t.node(at[k].0).item(at[k].1.into()).unwrap().key;
        match kind {
            1 | 2 | 3 if n >= 2 => {
                // next to each other, or anywhere
                let i = r.below(n as u64 - 1) as usize;
                let j = if kind == 1 || r.below(2) == 0 { i + 1 } else { i + 1 + r.below((n - i - 1) as u64) as usize };
                let (a, b) = (key(t, i), key(t, j));
                let (x, y) = match kind {
                    1 => (b, b),
                    2 => (b, a),
                    _ if r.below(2) == 0 => (b + 1, b),
                    _ => (a, a - 1),
                };
                t.node_mut(at[i].0).item_mut(at[i].1.into()).unwrap().key = x;
                t.node_mut(at[j].0).item_mut(at[j].1.into()).unwrap().key = y;
            }
            4 => {
                if let Some(i) = pick(&|f| f.parent.is_some()) {
                    let p = match r.below(3) {
                        0 => None,
                        1 => Some(all[i].id),
                        _ => Some(all[r.below(all.len() as u64) as usize].id),
                    };
                    t.node_mut(all[i].id).set_parent(p);
                }
            }
            5 => {
                if let Some(root) = t.root() {
                    let p = all[r.below(all.len() as u64) as usize].id;
                    t.node_mut(root).set_parent(Some(p));
                }
            }
            6 => {
                if let Some(i) = pick(&|f| f.parent.is_some() && f.leaf) {
                    let keep = r.below(M as u64 / 2 - 1) as usize;
                    let node = t.node_mut(all[i].id);
                    while node.item_count() > keep {
                        let k = r.below(node.item_count() as u64) as usize;
                        match node.leaf_remove(k.into()) {
                            Some(Ok(x)) => out.push(x),
                            _ => break,
                        }
                    }
                }
            }
            7 => {
                if let Some(i) = pick(&|f| f.parent.is_some() && f.leaf) {
                    let node = t.node_mut(all[i].id);
                    while node.item_count() <= M {
                        let k = node.item_count();
                        node.insert(k.into(), Tracked::new(0, 0), None);
                    }
                    rekey(t);
                }
            }
            8 => {
                let Some(i) = pick(&|f| f.parent.is_some() && !f.leaf) else { return out };
                let Some(j) = pick(&|f| f.parent.is_some() && !f.leaf && f.depth == all[i].depth && f.id != all[i].id) else { return out };
                let (from, to) = (all[i].id, all[j].id);
                for _ in 0..=r.below(4) {
                    if t.node(from).item_count() <= 1 || t.node(to).item_count() >= M {
                        break;
                    }
                    let moved = match t.node_mut(from) {
                        Node::Internal(n) => n.remove(Offset::from(0)),
                        _ => break,
                    };
                    let (_, item, child) = moved;
                    if let Node::Internal(n) = t.node_mut(to) {
                        n.push_right(item, child);
                    }
                    t.node_mut(child).set_parent(Some(to));
                }
                rekey(t);
            }
            9 => {
                // an internal node below the root, and a leaf that is not below it
                let Some(i) = pick(&|f| f.parent.is_some() && !f.leaf) else { return out };
                let b = all[i].id;
                let below = |f: &Found<S::Node>| {
                    let mut p = f.parent;
                    while let Some(x) = p {
                        if x == b {
                            return true;
                        }
                        p = all.iter().find(|g| g.id == x).and_then(|g| g.parent);
                    }
                    false
                };
                let Some(j) = pick(&|f| f.leaf && f.parent.is_some() && !below(f)) else { return out };
                let l = all[j].id;
                let (x, y) = (t.node_mut(b) as *mut Node<Tracked<P>, S>, t.node_mut(l) as *mut Node<Tracked<P>, S>);
                std::ptr::swap(x, y);
                t.node_mut(b).set_parent(all[i].parent);
                t.node_mut(l).set_parent(all[j].parent);
                let ch: Vec<S::Node> = t.node(l).children().collect();
                for c in ch {
                    t.node_mut(c).set_parent(Some(l));
                }
                rekey(t);
            }
            _ => (),
        }
    }
    out
}

/// Copies, damages and validates a tree. Returns what was done and, if the validator is wrong, how.
pub fn try_one<P: Kind, S: Storage<Tracked<P>>>(tree: &Tree<P, S>, kind: usize, seed: u64) -> (bool, Option<String>) {
    let _q = Quiet::new();
    let mut r = Rng::new(seed);
    let Ok(mut t) = lib(|| tree.clone()) else { return (false, None) };
    rekey(&mut t);
    if walk(&t).err.is_some() {
        // cloning is another property's matter
        ctx().leak_tol = true;
        std::mem::forget(t);
        return (false, None);
    }
    let out = damage(&mut t, kind, &mut r);
    let w = walk(&t);
    let verdict = lib(|| t.validate(plain_cmp));
    let bad = match (&w.err, verdict) {
        (None, Err(Caught::Unexpected(m))) => Some(format!("the validator rejects a valid tree of {} items: {m}", w.items.len())),
        (Some((_, why)), Ok(())) => Some(format!("the validator accepts a tree of {} items damaged by {}: {why}", w.items.len(), KINDS[kind])),
        _ => None,
    };
    drop(out);
    if w.err.is_some() {
        // nothing else is defined on such a tree
        ctx().leak_tol = true;
        std::mem::forget(t);
    } else {
        let _ = lib(|| drop(t));
    }
    (w.err.is_some(), bad)
}
