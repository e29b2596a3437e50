//! Single nodes edited through the public node API, against a sequence model.
use crate::ctx::{ctx, Fault, Quiet};
use crate::exec::{arm, disarm, lib, Caught};
use crate::item::{cmp_items, cmp_key, Kind, Tracked};
use crate::plan::Step;
use crate::rng::Rng;
use raw_btree::node::{Balance, WouldUnderflow};
use raw_btree::{Node, Offset, Storage, M};

type Nd<P, S> = Node<Tracked<P>, S>;
/// An item: its key and identity.
type It = (i64, u32);

#[derive(Clone, PartialEq, Debug)]
struct Model<I> {
    items: Vec<It>,
    /// Children, of an internal node.
    kids: Option<Vec<I>>,
    parent: Option<I>,
}

impl<I: Copy> Model<I> {
    /// Items it can hold, the overflowing one included.
    fn room(&self) -> usize {
        self.full_at() + 1
    }
    /// Items of a full node.
    fn full_at(&self) -> usize {
        if self.kids.is_some() {
            M - 1
        } else {
            M
        }
    }
    /// A key for an item at this position, if there is one left.
    fn key_at(&self, i: usize) -> Option<i64> {
        let lo = i.checked_sub(1).map(|i| self.items[i].0);
        let hi = self.items.get(i).map(|x| x.0);
        match (lo, hi) {
            (None, None) => Some(0),
            (None, Some(h)) => Some(h - 1000),
            (Some(l), None) => Some(l + 1000),
            (Some(l), Some(h)) if h - l > 1 => Some(l + (h - l) / 2),
            _ => None,
        }
    }
}

fn see<P: Kind>(t: &Tracked<P>) -> It {
    t.check("item of a node");
    (t.key, t.uid)
}

/// Compares everything a node tells about itself with the model.
fn judge<P: Kind, S: Storage<Tracked<P>>>(n: &Nd<P, S>, m: &Model<S::Node>) -> Result<(), String> {
    let _q = Quiet::new();
    let k = m.items.len();
    let got: Vec<It> = (0..n.item_count().min(32)).filter_map(|i| n.item(Offset::from(i)).map(see)).collect();
    if got != m.items || n.item_count() != k {
        return Err(format!("{} items: {got:?} instead of {:?}", n.item_count(), m.items));
    }
    if n.item(Offset::from(k)).is_some() || n.item(Offset::before()).is_some() {
        return Err("an item beyond the ends".into());
    }
    if n.parent() != m.parent {
        return Err(format!("parent {:?} instead of {:?}", n.parent(), m.parent));
    }
    let under = k < M / 2 - 1;
    let over = k > m.full_at();
    if (n.is_underflowing(), n.is_overflowing(), n.is_full()) != (under, over, k >= m.full_at()) {
        return Err(format!("{k} items: underflowing {}, overflowing {}, full {}", n.is_underflowing(), n.is_overflowing(), n.is_full()));
    }
    let b = match n.balance() {
        Balance::Balanced => !under && !over,
        Balance::Overflow => over,
        Balance::Underflow(e) => under && e == (k == 0),
    };
    if !b {
        return Err(format!("wrong balance of {k} items"));
    }
    let none = vec![];
    let kids = m.kids.as_ref().unwrap_or(&none);
    let c: Vec<S::Node> = n.children().take(32).collect();
    if c != *kids || n.child_count() != kids.len() {
        return Err(format!("children {c:?} instead of {kids:?}"));
    }
    for (i, id) in kids.iter().enumerate() {
        if n.child_index(*id) != Some(i) || n.child_id(i) != *id || n.child_id_opt(i) != Some(*id) {
            return Err(format!("child {i} is not found where it is"));
        }
    }
    if n.child_id_opt(kids.len()).is_some() {
        return Err("a child beyond the last one".into());
    }
    if m.kids.is_some() {
        let w: Vec<_> = n.children_with_separators().take(32).map(|(l, c, r)| (l.map(see), c, r.map(see))).collect();
        let want: Vec<_> = kids.iter().enumerate().map(|(i, c)| (i.checked_sub(1).map(|i| m.items[i]), *c, m.items.get(i).copied())).collect();
        if w != want {
            return Err(format!("children with separators {w:?} instead of {want:?}"));
        }
        for (i, x) in want.iter().enumerate() {
            let s = n.separators(i);
            if (s.0.map(see), s.1.map(see)) != (x.0, x.2) {
                return Err(format!("wrong separators of child {i}"));
            }
        }
    }
    Ok(())
}

/// Runs a history of edits. Returns the number of calls, or (class, what is wrong).
pub fn run<P: Kind, S: Storage<Tracked<P>>>(st: &Step) -> Result<u64, String> {
    let mut r = Rng::new(st.b as u64 ^ 0x0ED1);
    let base = ctx().live_normal;
    disarm();
    let mut store = S::default();
    // identifiers of live nodes, to be had as children
    let ids: Vec<S::Node> = {
        let _q = Quiet::new();
        (0..40).map(|i| {
            let x = Tracked::new(i, 0);
            let _i = crate::alloc::In::new();
            store.allocate_node(Node::leaf(None, x))
        }).collect()
    };
    let mut used = 0;
    let mut nodes: Vec<(Nd<P, S>, Model<S::Node>)> = vec![];
    let mut calls = 0;
    let mut end = None;
    let faulty = (st.fault != Fault::None).then(|| r.below(st.script.len() as u64 + 1));
    for (at, b) in st.script.iter().enumerate() {
        if nodes.is_empty() || (b & 31 < 3 && nodes.len() < 5) {
            // a new node
            let x = Tracked::new(r.below(100) as i64 * 1000, 0);
            let it = see(&x);
            let p = (r.below(3) == 0).then(|| ids[r.below(40) as usize]);
            let n = if b & 32 == 0 {
                (lib(|| Node::leaf(p, x)), None)
            } else {
                let (l, rt) = (ids[used % 40], ids[(used + 1) % 40]);
                used += 2;
                (lib(|| Node::binary(p, l, x, rt)), Some(vec![l, rt]))
            };
            match n {
                (Ok(n), kids) => nodes.push((n, Model { items: vec![it], kids, parent: p })),
                _ => return Err("creating a node panicked".into()),
            }
            continue;
        }
        let j = r.below(nodes.len() as u64) as usize;
        // a child that the node does not have yet
        let mut child = None;
        if let Some(k) = &nodes[j].1.kids {
            let mut i = used;
            while k.contains(&ids[i % 40]) {
                i += 1
            }
            used = i + 1;
            child = Some(ids[i % 40]);
        }
        let other = (nodes.len() > 1).then(|| (j + 1 + r.below(nodes.len() as u64 - 1) as usize) % nodes.len());
        let (n, m) = &mut nodes[j];
        let before = m.clone();
        let len = m.items.len();
        let i = r.below(len as u64 + 1) as usize;
        let leaf = m.kids.is_none();
        let mut what = "";
        calls += 1;
        if faulty == Some(at as u64) {
            arm(st, ctx().storage_seed, 0, false)
        }
        let mut more = None;
        // result of the call: a complaint, or nothing
        let res: Result<Option<String>, Caught> = match b % 18 {
            0 | 1 if len < m.room() => {
                what = "insert";
                let Some(k) = m.key_at(i) else { disarm(); continue };
                let x = Tracked::new(k, 1);
                m.items.insert(i, see(&x));
                if let Some(ks) = &mut m.kids {
                    ks.insert(i + 1, child.unwrap())
                }
                lib(|| n.insert(Offset::from(i), x, child)).map(|_| None)
            }
            2 | 3 | 4 => {
                // a key of the node, or between two of them
                what = "insert_by_key";
                let (k, hit) = match (i < len && r.below(2) == 0).then(|| m.items[i].0) {
                    Some(k) => (k, Some(i)),
                    None => match m.key_at(i) {
                        Some(k) => (k, None),
                        None => { disarm(); continue }
                    },
                };
                if leaf && len >= m.room() {
                    disarm();
                    continue;
                }
                let x = Tracked::new(k, 2);
                let it = see(&x);
                match (hit, leaf) {
                    (Some(i), _) => m.items[i] = it,
                    (None, true) => m.items.insert(i, it),
                    _ => (),
                }
                lib(|| n.insert_by_key(cmp_items, x)).map(|g| match (g, hit, leaf) {
                    (Ok((o, Some(old))), Some(i), _) => (o != i || see(&old) != before.items[i]).then(|| format!("offset {o}, {:?} replaced", see(&old))),
                    (Ok((o, None)), None, true) => (o != i).then(|| format!("inserted at {i}, offset {o}")),
                    (Err(e), None, false) => {
                        let ks = m.kids.as_ref().unwrap();
                        (e.child_offset != i || e.child_id != ks[i] || see(&e.item) != it).then(|| format!("child {} for child {i}", e.child_offset))
                    }
                    (Ok((o, x)), ..) => Some(format!("offset {o}, replaced {}", x.is_some())),
                    (Err(_), ..) => Some("sent to a child".into()),
                })
            }
            5 | 6 => {
                what = "search";
                let (k, hit) = match (i < len).then(|| m.items[i].0) {
                    Some(k) if r.below(2) == 0 => (k, Some(i)),
                    _ => match m.key_at(i) {
                        Some(k) => (k, None),
                        None => { disarm(); continue }
                    },
                };
                let kid = m.kids.as_ref().map(|k| k[i.min(k.len() - 1)]);
                lib(|| {
                    let want = hit.map(|i| m.items[i]);
                    let a = match n.offset_of(cmp_key, &k) {
                        Ok(o) => hit.is_some_and(|i| o == i),
                        Err((o, id)) => hit.is_none() && o == i && id == kid,
                    };
                    let g = match n.get(cmp_key, &k) {
                        Ok(x) => (hit.is_some() || leaf) && x.map(see) == want,
                        Err(id) => hit.is_none() && Some(id) == kid,
                    };
                    let h = match n.get_mut(cmp_key, &k) {
                        Ok(x) => (hit.is_some() || leaf) && x.map(|x| see(x)) == want,
                        Err(id) => hit.is_none() && Some(*id) == kid,
                    };
                    (!(a && g && h)).then(|| format!("key {k}: offset_of right {a}, get {g}, get_mut {h}"))
                })
            }
            7 => {
                what = "leaf_remove";
                let o = if r.below(8) == 0 { Offset::before() } else { Offset::from(i) };
                let hit = (!o.is_before() && i < len).then_some(i);
                if let (true, Some(i)) = (leaf, hit) {
                    m.items.remove(i);
                }
                lib(|| n.leaf_remove(o)).map(|g| {
                    let ok = match (&g, hit) {
                        (None, None) => true,
                        (Some(Ok(x)), Some(i)) => leaf && see(x) == before.items[i],
                        (Some(Err(c)), Some(i)) => !leaf && *c == before.kids.as_ref().unwrap()[i],
                        _ => false,
                    };
                    (!ok).then(|| format!("wrong answer at {o}: {:?}", g.map(|x| x.ok().map(|x| see(&x)))))
                })
            }
            8 if len > 0 || !leaf => {
                what = "remove_rightmost_leaf";
                if leaf {
                    m.items.pop();
                }
                lib(|| n.remove_rightmost_leaf()).map(|g| {
                    let ok = match &g {
                        Ok(x) => leaf && Some(&see(x)) == before.items.last(),
                        Err(c) => !leaf && Some(c) == before.kids.as_ref().unwrap().last(),
                    };
                    (!ok).then(|| "not the last one".into())
                })
            }
            9 | 10 if len < m.room() => {
                let left = b % 18 == 9;
                what = if left { "push_left" } else { "push_right" };
                let i = if left { 0 } else { len };
                let x = Tracked::new(m.key_at(i).unwrap(), 3);
                m.items.insert(i, see(&x));
                if let Some(ks) = &mut m.kids {
                    ks.insert(if left { 0 } else { len + 1 }, child.unwrap())
                }
                lib(|| {
                    if left {
                        n.push_left(x, child);
                        None
                    } else {
                        let o = n.push_right(x, child);
                        (o != len).then(|| format!("pushed at {len}, offset {o}"))
                    }
                })
            }
            11 => {
                what = "pop_left";
                let kid = before.kids.as_ref().map(|k| k[0]);
                if len > M / 2 - 1 {
                    m.items.remove(0);
                    if let Some(ks) = &mut m.kids {
                        ks.remove(0);
                    }
                }
                lib(|| n.pop_left()).map(|g| match g {
                    Ok((x, c)) => (len < M / 2 || see(&x) != before.items[0] || c != kid).then(|| format!("popped {:?} of {len} items", see(&x))),
                    Err(WouldUnderflow) => (len >= M / 2).then(|| format!("refused on {len} items")),
                })
            }
            12 => {
                what = "pop_right";
                let kid = before.kids.as_ref().map(|k| *k.last().unwrap());
                if len > M / 2 - 1 {
                    m.items.pop();
                    if let Some(ks) = &mut m.kids {
                        ks.pop();
                    }
                }
                lib(|| n.pop_right()).map(|g| match g {
                    Ok((o, x, c)) => (len < M / 2 || see(&x) != before.items[len - 1] || c != kid || o != len - 1)
                        .then(|| format!("popped {:?} of {len} items, offset {o}", see(&x))),
                    Err(WouldUnderflow) => (len >= M / 2).then(|| format!("refused on {len} items")),
                })
            }
            13 | 0 | 1 if len > m.full_at() => {
                what = "split";
                lib(|| n.split()).map(|(k, x, right)| {
                    let bad = k >= len || see(&x) != before.items[k];
                    if bad {
                        return Some(format!("{k} items kept, median {:?}", see(&x)));
                    }
                    m.items.truncate(k);
                    let kids = m.kids.as_mut().map(|ks| ks.split_off(k + 1));
                    let mr = Model { items: before.items[k + 1..].to_vec(), kids, parent: m.parent };
                    let bad = m.items.len() < M / 2 - 1 || mr.items.len() < M / 2 - 1;
                    let e = judge(&right, &mr).err().map(|e| format!("right node: {e}"));
                    more = Some((right, mr));
                    e.or(bad.then(|| format!("{len} items split into {k} and the rest")))
                })
            }
            14 if other.is_some() => {
                let o = other.unwrap();
                let (x, y) = (&nodes[j].1, &nodes[o].1);
                let distinct = match (&x.kids, &y.kids) {
                    (Some(a), Some(b)) => a.iter().all(|k| !b.contains(k)),
                    (None, None) => true,
                    _ => false,
                };
                if !distinct || len + 1 + y.items.len() > x.full_at() {
                    disarm();
                    continue;
                }
                let (mut on, mut om) = nodes.swap_remove(o);
                let j = if j == nodes.len() { o } else { j };
                let (n, m) = &mut nodes[j];
                let sep = Tracked::new(m.key_at(len).unwrap(), 4);
                for i in 0..om.items.len() {
                    let k = sep.key + 1000 * (i as i64 + 1);
                    if let Some(t) = on.item_mut(Offset::from(i)) {
                        t.key = k
                    }
                    om.items[i].0 = k;
                }
                m.items.push(see(&sep));
                m.items.extend(om.items);
                if let Some(ks) = &mut m.kids {
                    ks.extend(om.kids.unwrap())
                }
                let g = lib(|| n.append(sep, on)).map(|o| (o != len).then(|| format!("separator at {len}, offset {o}")));
                let e = match g {
                    Ok(None) => judge(&nodes[j].0, &nodes[j].1).err(),
                    Ok(e) => e,
                    Err(_) => Some("panicked".into()),
                };
                if let Some(e) = e {
                    end = Some(format!("append: {e}"));
                    break;
                }
                disarm();
                continue;
            }
            15 if !leaf && i < len => {
                what = "replace";
                let x = Tracked::new(m.items[i].0, 5);
                m.items[i] = see(&x);
                lib(|| n.replace(Offset::from(i), x)).map(|o| (see(&o) != before.items[i]).then(|| format!("{:?} replaced", see(&o))))
            }
            16 if !leaf && i < len => {
                let ks = m.kids.as_mut().unwrap();
                m.items.remove(i);
                ks.remove(i + 1);
                let bk = before.kids.as_ref().unwrap();
                if r.below(2) == 0 {
                    what = "remove";
                    lib(|| match n {
                        Node::Internal(n) => n.remove(Offset::from(i)),
                        _ => unreachable!(),
                    })
                    .map(|(l, x, rt)| (l != bk[i] || rt != bk[i + 1] || see(&x) != before.items[i]).then(|| format!("{:?} removed", see(&x))))
                } else {
                    what = "merge";
                    let left = m.items.len();
                    lib(|| n.merge(i)).map(|(o, l, rt, x, bal)| {
                        let b = match bal {
                            Balance::Balanced => left >= M / 2 - 1 && left < M,
                            Balance::Overflow => false,
                            Balance::Underflow(e) => left < M / 2 - 1 && e == (left == 0),
                        };
                        (o != i || l != bk[i] || rt != bk[i + 1] || !b || see(&x) != before.items[i]).then(|| format!("offset {o}, item {:?}, balance right {b}", see(&x)))
                    })
                }
            }
            17 => {
                what = "set_parent";
                m.parent = (r.below(3) > 0).then(|| ids[r.below(40) as usize]);
                let p = m.parent;
                lib(|| n.set_parent(p)).map(|_| None)
            }
            _ => {
                calls -= 1;
                Ok(None)
            }
        };
        disarm();
        let e = match res {
            Ok(e) => e,
            Err(Caught::Injected(_)) => {
                // as if it had not been called
                nodes[j].1 = before;
                None
            }
            Err(Caught::Unexpected(e)) => Some(format!("panicked: {e}")),
        };
        let e = e.or_else(|| judge(&nodes[j].0, &nodes[j].1).err());
        if let Some(e) = e {
            end = Some(format!("{what} at item {i} of {len} of {}: {e}", if leaf { "a leaf" } else { "an internal node" }));
            break;
        }
        if let Some(x) = more {
            if nodes.len() < 6 {
                nodes.push(x)
            }
        }
    }
    if let Some(e) = end {
        ctx().leak_tol = true;
        std::mem::forget((nodes, store));
        return Err(e);
    }
    let r = lib(|| {
        drop(nodes);
        for id in ids {
            drop(unsafe { store.release_node(id) })
        }
        drop(store)
    });
    match r {
        Err(_) => Err("dropping the nodes panicked".into()),
        _ if ctx().live_normal != base => Err(format!("{} items left when all nodes are gone", ctx().live_normal as i64 - base as i64)),
        _ => Ok(calls),
    }
}
