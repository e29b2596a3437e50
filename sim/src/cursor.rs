//! Offsets: cursors that walk over the positions of a node, against plain integers.
use crate::ctx::Quiet;
use crate::exec::{lib, Caught};
use crate::item::{Kind, Tracked};
use crate::plan::Step;
use crate::rng::Rng;
use raw_btree::{Address, Node, Offset, RawBTree, Storage};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// The position an offset stands for: before the first item, or an index.
type Pos = Option<usize>;

fn hash(o: Offset) -> u64 {
    let mut h = DefaultHasher::new();
    o.hash(&mut h);
    h.finish()
}

/// All that is said of two offsets.
fn pair(a: (Offset, Pos), b: (Offset, Pos)) -> Result<(), String> {
    let want: Ordering = a.1.cmp(&b.1);
    let got = (a.0.cmp(&b.0), a.0.partial_cmp(&b.0));
    let ops = (a.0 == b.0, a.0 != b.0, a.0 < b.0, a.0 <= b.0, a.0 > b.0, a.0 >= b.0, a.0.max(b.0) == a.0);
    let want_ops = (want.is_eq(), want.is_ne(), want.is_lt(), want.is_le(), want.is_gt(), want.is_ge(), want.is_ge());
    if got != (want, Some(want)) || ops != want_ops {
        return Err(format!("offsets {:?} and {:?} compare {got:?}, operators == != < <= > >= max: {ops:?}", a.1, b.1));
    }
    if want.is_eq() && hash(a.0) != hash(b.0) {
        return Err(format!("equal offsets {:?} have different hashes", a.1));
    }
    let (x, y) = (Address::new(3usize, a.0), Address::new(3usize, b.0));
    if (x == y) != want.is_eq() || x == Address::new(4usize, a.0) {
        return Err(format!("addresses with offsets {:?} and {:?} compare wrongly", a.1, b.1));
    }
    Ok(())
}

/// All that is said of one offset.
fn single(o: Offset, p: Pos, n: usize) -> Result<(), String> {
    let far = p.unwrap_or(0);
    for i in (0..n + 2).chain([far, far.saturating_sub(1), far + 1, usize::MAX / 2]) {
        let want = p.cmp(&Some(i));
        let got = (o == i, o != i, o < i, o <= i, o > i, o >= i, o.partial_cmp(&i));
        if got != (want.is_eq(), want.is_ne(), want.is_lt(), want.is_le(), want.is_gt(), want.is_ge(), Some(want)) {
            return Err(format!("offset {p:?} against index {i}: == != < <= > >= and partial_cmp say {got:?}"));
        }
        pair((o, p), (Offset::from(i), Some(i)))?;
    }
    pair((o, p), (Offset::before(), None))?;
    if o.value() != p || o.is_before() != p.is_none() {
        return Err(format!("offset {p:?} tells value {:?}, is_before {}", o.value(), o.is_before()));
    }
    let text = p.map_or("-1".to_string(), |i| i.to_string());
    let a = Address::new(12usize, o);
    if format!("{o}") != text || format!("{o:?}") != text || format!("{a}") != format!("@12:{text}") || format!("{a:?}") != format!("@12:{text}") {
        return Err(format!("offset {p:?} is written {o}, its address in node 12 {a}"));
    }
    match (lib(|| o.unwrap()), p) {
        (Ok(x), Some(i)) if x == i => Ok(()),
        (Err(Caught::Unexpected(_)), None) => Ok(()),
        (r, _) => Err(format!("unwrapping offset {p:?}: {:?}", r.ok())),
    }
}

/// Walks cursors over a node of the tree. Returns the number of calls, or what is wrong.
pub fn run<P: Kind, S: Storage<Tracked<P>>>(t: &RawBTree<Tracked<P>, S>, st: &Step) -> Result<u64, String> {
    let _q = Quiet::new();
    let mut r = Rng::new(st.b as u64 ^ 0xC0);
    let Some(mut id) = t.root() else { return Ok(0) };
    for _ in 0..r.below(8) {
        let node = unsafe { t.node(id) };
        let c = node.child_count();
        if c == 0 {
            break;
        }
        id = node.child_id(r.below(c as u64) as usize);
    }
    let items: Vec<u32> = match unsafe { t.node(id) } {
        Node::Leaf(l) => l.iter().map(|x| x.uid).collect(),
        Node::Internal(i) => i.branches().iter().map(|b| b.item.uid).collect(),
    };
    let n = items.len();
    let mut cursors: Vec<(Offset, Pos)> = vec![(Offset::before(), None), (0.into(), Some(0)), (n.into(), Some(n))];
    let mut calls = 0;
    for b in &st.script {
        let k = r.below(3) as usize;
        let next = cursors[(k + 1) % 3];
        // cursors stay around the node; some leave it for indices far away
        let (o, p) = &mut cursors[k];
        match b & 7 {
            0..=2 => {
                // not on to the last index, which nothing follows
                if p.is_none_or(|i| i < usize::MAX - 2) && (p.is_none_or(|i| i < n || i > n + 64)) {
                    o.incr();
                    *p = Some(p.map_or(0, |i| i + 1));
                }
            }
            3..=5 => {
                if let Some(i) = *p {
                    o.decr();
                    *p = i.checked_sub(1);
                }
            }
            6 if b & 8 == 0 => {
                let i = r.below(n as u64 + 1) as usize;
                (*o, *p) = (Offset::from(i), Some(i));
            }
            6 => (*o, *p) = (Offset::before(), None),
            _ if b & 0x78 == 0 => {
                let i = (usize::MAX - 3 - r.below(40) as usize) >> r.below(30);
                (*o, *p) = (i.into(), Some(i));
            }
            _ => (*o, *p) = next,
        }
        let (o, p) = cursors[k];
        calls += 1;
        // there and back
        if p.is_none_or(|i| i < usize::MAX - 2) {
            let mut x = o;
            x.incr();
            pair((x, Some(p.map_or(0, |i| i + 1))), (o, p))?;
            x.decr();
            pair((x, p), (o, p))?;
        }
        single(o, p, n)?;
        for a in &cursors {
            for b in &cursors {
                pair(*a, *b)?;
            }
        }
        let mut sorted = cursors.clone();
        sorted.sort_by_key(|x| x.0);
        if !sorted.windows(2).all(|w| w[0].1 <= w[1].1) {
            return Err(format!("sorting offsets gives {:?}", sorted.iter().map(|x| x.1).collect::<Vec<_>>()));
        }
        let got = unsafe { t.get_at(Address::new(id, o)) }.map(|x| x.uid);
        let want = p.and_then(|i| items.get(i).copied());
        if got != want {
            return Err(format!("reading at offset {p:?} of a node of {n} items: item {got:?} instead of {want:?}"));
        }
    }
    Ok(calls)
}
