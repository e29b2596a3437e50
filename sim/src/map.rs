//! Ordered maps made of the crate's key/value items: trees of `Item`s compared with `Item`'s own
//! comparisons. Keys and values are instrumented; values are ordered too, differently from the keys.
use crate::alloc::{In, Out};
use crate::ctx::{ctx, op, Quiet};
use crate::exec::{arm, disarm, lib, Caught};
use crate::item::{cmp_items, Kind, Tracked};
use crate::plan::Step;
use crate::rng::Rng;
use raw_btree::{Item, RawBTree, Storage};
use std::borrow::Borrow;
use std::cmp::Ordering;

type Pair<P> = Item<Tracked<P>, Tracked<P>>;

impl<P: Kind> PartialEq for Tracked<P> {
    fn eq(&self, o: &Self) -> bool {
        cmp_items(self, o).is_eq()
    }
}
impl<P: Kind> Eq for Tracked<P> {}
impl<P: Kind> PartialOrd for Tracked<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(cmp_items(self, o))
    }
}
impl<P: Kind> Ord for Tracked<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        cmp_items(self, o)
    }
}
impl<P: Kind> Borrow<i64> for Tracked<P> {
    fn borrow(&self) -> &i64 {
        let _o = Out::new();
        self.check("key of an item");
        &self.key
    }
}

/// Key, identity of the key, identity of the value, what the value holds.
type Row = (i64, u32, u32, u32);

fn row<P: Kind>(x: &Pair<P>) -> Row {
    let _q = Quiet::new();
    let (k, v) = x.as_pair();
    k.check("key of an item");
    v.check("value of an item");
    (k.key, k.uid, v.uid, v.val)
}

/// The ways to compare two items: they agree.
fn order<P: Kind>(way: u64, a: &Pair<P>, b: &Pair<P>) -> Ordering {
    match way {
        0 => a.cmp(b),
        1 => a.partial_cmp(b).unwrap(),
        2 => {
            if a < b {
                Ordering::Less
            } else if a == b {
                Ordering::Equal
            } else {
                Ordering::Greater
            }
        }
        3 => a.key_cmp(&b.key),
        _ => a.key_cmp(&b.key.key),
    }
}

/// Every answer on a pair of items, given how their keys compare.
fn agree<K: Ord, V: Ord>(a: &Item<K, V>, b: &Item<K, V>, want: Ordering) -> Result<(), String> {
    let got = [Some(a.cmp(b)), a.partial_cmp(b), Some(a.key_cmp(&b.key)), Some(b.cmp(a).reverse()), b.partial_cmp(a).map(Ordering::reverse)];
    if got != [Some(want); 5] {
        return Err(format!("items whose keys compare {want:?} compare {got:?}"));
    }
    let got = (a == b, a != b, a < b, a <= b, a > b, a >= b);
    if got != (want.is_eq(), want.is_ne(), want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()) {
        return Err(format!("operators == != < <= > >= say {got:?} of items whose keys compare {want:?}"));
    }
    Ok(())
}

/// Items whose keys are not always ordered.
fn partial<K: PartialOrd, V: PartialOrd>(a: &Item<K, V>, b: &Item<K, V>) -> Result<(), String> {
    let (x, y) = (&a.key, &b.key);
    let want = (x.partial_cmp(y), x == y, x != y, x < y, x <= y, x > y, x >= y);
    let got = (a.partial_cmp(b), a == b, a != b, a < b, a <= b, a > b, a >= b);
    if want != got {
        return Err(format!("keys compare {want:?}, their items {got:?}"));
    }
    Ok(())
}

/// A step is aborted by its fault, or fails.
fn settle<R>(r: Result<R, Caught>, what: &str) -> Result<Option<R>, String> {
    match r {
        Ok(x) => Ok(Some(x)),
        Err(Caught::Injected(_)) => Ok(None),
        Err(Caught::Unexpected(m)) => Err(format!("{what} panicked: {m}")),
    }
}

fn dead(has_drop: bool, uids: [u32; 2], what: &str) -> Result<(), String> {
    if has_drop && uids.iter().any(|u| ctx().items[*u as usize].live) {
        return Err(format!("the key or the value of an item that did not enter the map is still alive after {what}"));
    }
    Ok(())
}

/// Runs a history of such a map. Returns the number of calls, or what is wrong.
pub fn run<P: Kind, S: Storage<Pair<P>>>(st: &Step) -> Result<u64, String> {
    let mut r = Rng::new(st.b as u64 ^ 0x3A9);
    let base = ctx().live_normal;
    let span = [4, 20, 80, 200][r.below(4) as usize];
    let mut m: Vec<Row> = vec![];
    let new = || {
        let _i = In::new();
        RawBTree::<Pair<P>, S>::new()
    };
    let mut t = new();
    let mut calls = 0;
    disarm();
    let faulty = r.below(st.script.len() as u64 + 1);
    for (at, b) in st.script.iter().enumerate() {
        if faulty == at as u64 {
            arm(st, ctx().storage_seed, 0, true);
            // the fault may come several calls later
            op(|o| {
                o.cmp_budget.set(u64::MAX);
                o.st_budget.set(u64::MAX)
            });
        }
        let b = if m.len() < 3 && b & 3 != 0 { 0 } else { *b };
        let count = if b & 15 < 5 { 1 + (b >> 4) as u64 * (span as u64 / 100) } else { 1 };
        for _ in 0..count {
            calls += 1;
            let way = r.below(5);
            let k = r.below(span as u64) as i64;
            let at = m.binary_search_by_key(&k, |x| x.0);
            let val = r.below(1000) as u32;
            match b & 15 {
                0..=2 => {
                    // values are ordered against the keys
                    let x = Item::new(Tracked::<P>::new(k, 0), Tracked::<P>::new(r.below(9) as i64 - k, val));
                    let want = row(&x);
                    match settle(lib(|| t.insert(|a, b| order(way, a, b), x)), "insert")? {
                        Some(old) => {
                            let got = old.map(|x| {
                                let g = row(&x);
                                let (k, v) = x.into_pair();
                                (g, k.uid, v.uid)
                            });
                            if got != at.ok().map(|i| (m[i], m[i].1, m[i].2)) {
                                return Err(format!("insert of key {k} returned {got:?}, the map held {:?}", at.ok().map(|i| m[i])));
                            }
                            match at {
                                Ok(i) => m[i] = want,
                                Err(i) => m.insert(i, want),
                            }
                        }
                        None => dead(P::HAS_DROP, [want.1, want.2], "an aborted insert")?,
                    }
                }
                3 | 4 => {
                    let q = Tracked::<P>::new(k, 0);
                    let x = lib(|| if way < 3 { t.remove(|a, b: &Tracked<P>| a.key_cmp(b), &q) } else { t.remove(|a, b: &i64| a.key_cmp(b), &k) });
                    if let Some(x) = settle(x, "remove")? {
                        let got = x.as_ref().map(|x| row(x.as_ref()));
                        if got != at.ok().map(|i| m[i]) {
                            return Err(format!("remove of key {k} returned {got:?}, the map held {:?}", at.ok().map(|i| m[i])));
                        }
                        if let Ok(i) = at {
                            m.remove(i);
                        }
                    }
                }
                5 | 6 => {
                    let q = Item::new(Tracked::<P>::new(k, 0), Tracked::<P>::new(-k, val));
                    let x = lib(|| if way < 3 { t.get(|a, b| order(way, a, b), &q) } else { t.get(|a, b: &i64| a.key_cmp(b), &k) }.map(row));
                    if let Some(got) = settle(x, "get")? {
                        if got != at.ok().map(|i| m[i]) {
                            return Err(format!("get of key {k} returned {got:?}, the map holds {:?}", at.ok().map(|i| m[i])));
                        }
                    }
                }
                7 => {
                    let x = lib(|| {
                        t.get_mut(|a, b: &i64| a.key_cmp(b), &k).map(|x| {
                            let was = row(x);
                            x.value.val = val;
                            was
                        })
                    });
                    if let Some(got) = settle(x, "get_mut")? {
                        if got != at.ok().map(|i| m[i]) {
                            return Err(format!("get_mut of key {k} returned {got:?}, the map holds {:?}", at.ok().map(|i| m[i])));
                        }
                        if let Ok(i) = at {
                            m[i].3 = val;
                        }
                    }
                }
                8 => {
                    let kept = ctx().live_normal;
                    match settle(lib(|| t.clone()), "clone")? {
                        Some(mut c) => {
                            let rows: Vec<Row> = c.iter().map(row).collect();
                            let old = |x: &Row| m.iter().any(|y| y.1 == x.1 || y.2 == x.2);
                            let same = rows.iter().map(|x| (x.0, x.3)).eq(m.iter().map(|x| (x.0, x.3)));
                            if !same || c.len() != m.len() || rows.iter().any(old) {
                                return Err(format!("a clone holds {rows:?}, its original {m:?}"));
                            }
                            let _q = Quiet::new();
                            for (a, b) in t.iter().zip(c.iter()) {
                                agree(a, b, Ordering::Equal)?;
                            }
                            if way == 0 {
                                std::mem::swap(&mut t, &mut c);
                                m = rows;
                            }
                        }
                        // what an aborted clone leaves behind is not this property's
                        None => ctx().live_normal = ctx().live_normal.min(kept),
                    }
                }
                9 => {
                    // two stored items, and a stored one against one of its own key
                    let _q = Quiet::new();
                    let rows: Vec<&Pair<P>> = t.iter().collect();
                    if let Some(a) = rows.get(k as usize % rows.len().max(1)) {
                        let b = rows[val as usize % rows.len()];
                        agree(a, b, a.key.key.cmp(&b.key.key))?;
                        let d = r.below(3) as i64 - 1;
                        let c = Item::new(Tracked::<P>::new(a.key.key + d, 0), Tracked::<P>::new(r.below(9) as i64 - 4, val));
                        agree(a, &c, 0.cmp(&d))?;
                    }
                }
                10 => {
                    const F: [f64; 7] = [f64::NAN, f64::NEG_INFINITY, -1.5, -0.0, 0.0, 1.5, f64::INFINITY];
                    let mut f = || F[r.below(7) as usize];
                    let (a, b) = (Item::new(f(), f()), Item::new(f(), f()));
                    partial(&a, &b)?;
                    partial(&a, &a)?;
                }
                11 => {
                    const W: [&str; 6] = ["", "a", "ab", "b", "ba", "\u{e9}"];
                    let (x, y) = (W[r.below(6) as usize], W[r.below(6) as usize]);
                    let (a, b) = (Item::new(x.to_string(), val), Item::new(y.to_string(), k as u32));
                    agree(&a, &b, x.cmp(y))?;
                    if a.key_cmp(y) != x.cmp(y) || a.key_cmp(y) != a.key_cmp(&b.key) {
                        return Err(format!("an item of key {x:?} compared with the bare key {y:?}: {:?}", a.key_cmp(y)));
                    }
                    if a.as_pair() != (&x.to_string(), &val) || b.into_pair() != (y.to_string(), k as u32) {
                        return Err("as_pair or into_pair does not return the key and the value".into());
                    }
                }
                12 => {
                    let _q = Quiet::new();
                    let got = (t.first().map(row), t.last().map(row));
                    if got != (m.first().copied(), m.last().copied()) {
                        return Err(format!("first and last are {got:?}"));
                    }
                    for (a, b) in t.iter().zip(t.iter().skip(1)) {
                        agree(a, b, Ordering::Less)?;
                    }
                }
                13 => {
                    let mut k = k as usize % (m.len() + 1);
                    let x = std::mem::replace(&mut t, new());
                    let rows = lib(|| {
                        let mut rows = vec![];
                        let mut it = x.into_iter();
                        while k > 0 {
                            let Some(x) = it.next() else { break };
                            rows.push(row(&x));
                            k -= 1;
                            let (k, v) = x.into_pair();
                            if (k.uid, v.uid) != rows.last().map(|x| (x.1, x.2)).unwrap() {
                                rows.clear();
                            }
                        }
                        rows
                    });
                    if let Some(rows) = settle(rows, "into_iter")? {
                        if !m.starts_with(&rows) {
                            return Err(format!("an owning iteration yields {rows:?} of {m:?}"));
                        }
                    }
                    m.clear();
                }
                14 if b > 128 => {
                    settle(lib(|| t.clear()), "clear")?;
                    m.clear();
                }
                _ => (),
            }
        }
        let _q = Quiet::new();
        let rows: Vec<Row> = t.iter().take(m.len() + 8).map(row).collect();
        if rows != m || t.len() != m.len() {
            return Err(format!("the map holds {rows:?} (len {}) instead of {m:?}", t.len()));
        }
        if ctx().live_normal - base != if P::HAS_DROP { 2 * m.len() as i64 } else { 0 } {
            return Err(format!("{} keys and values are alive for {} items", ctx().live_normal - base, m.len()));
        }
    }
    disarm();
    settle(lib(|| drop(t)), "drop")?;
    if ctx().live_normal != base {
        return Err("keys or values are alive after their map".into());
    }
    Ok(calls)
}
