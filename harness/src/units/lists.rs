//! C16: the sequence containers against a plain vector.
use super::*;
use crate::configs::T16H;
use crate::drive::{Job, Sink};
use crate::rank::RankKey;
use crate::val::Val;
use crate::want;
use proptest::prelude::*;
use std::collections::{BTreeMap, VecDeque};
use veb_tree::bitset::{ByteSet, List, ListMarker, TreeList, TreeListMarker, VecDequeMarker};
use veb_tree::markers::{Marker8, VebTreeType};
use veb_tree::{Iter, VebTree};

type Ops = Vec<(u8, u16, u16)>;

fn values<V: Val>(ops: &Ops) -> Verdict
where
    VecDequeMarker: ListMarker<V, List = VecDeque<V>>,
{
    let mut l: Option<VecDeque<V>> = None;
    let mut m: Vec<u64> = vec![];
    let id = |t: u64| if V::HAS { t } else { 0 };
    let mut most = 0;
    let mut removed = 0;
    for (t, (op, i, _)) in ops.iter().enumerate() {
        let t = t as u64;
        match l.take() {
            None => {
                l = Some(<VecDeque<V> as List>::from_monad(V::mk(t)));
                m = vec![id(t)];
            }
            Some(mut x) => match op % 8 {
                0..=3 => {
                    let at = *i as usize % (m.len() + 1);
                    List::insert_value(&mut x, at, V::mk(t));
                    m.insert(at, id(t));
                    l = Some(x);
                }
                4 | 5 => {
                    let at = *i as usize % m.len();
                    let (rest, got) = List::remove_value(x, at);
                    let want = m.remove(at);
                    removed += 1;
                    want!(got.id() == want, "remove_value({at}) returned {}, not {want}", got.id());
                    want!(rest.is_some() != m.is_empty(), "remove_value left a list: {}, with {} elements expected", rest.is_some(), m.len());
                    l = rest;
                }
                6 => {
                    let at = *i as usize % m.len();
                    *List::get_mut(&mut x, at) = V::mk(t);
                    m[at] = id(t);
                    l = Some(x);
                }
                _ => l = Some(x),
            },
        }
        most = most.max(m.len());
        if let Some(x) = l.as_mut() {
            want!(List::len(x) == m.len(), "len {} for {} elements", List::len(x), m.len());
            want!(List::is_empty(x) == m.is_empty(), "is_empty {}", List::is_empty(x));
            for (i, v) in m.iter().enumerate() {
                want!(List::get(x, i).id() == *v, "get({i}) is {}, not {v}", List::get(x, i).id());
            }
            for (i, v) in m.iter().enumerate() {
                want!(List::get_mut(x, i).id() == *v, "get_mut({i}) is {}, not {v}", List::get_mut(x, i).id());
            }
        }
    }
    let mut s = Stats { nontrivial: most >= 3 && removed >= 1, max_len: most, ..Stats::default() };
    s.acts = ops.len() as u64;
    Ok(s)
}

/// Lists of up to some 100 000 elements, built and emptied in long runs.
fn long<V: Val>(ops: &Ops) -> Verdict
where
    VecDequeMarker: ListMarker<V, List = VecDeque<V>>,
{
    let mut l: Option<VecDeque<V>> = None;
    let mut m: VecDeque<u64> = VecDeque::new();
    let mut next = 0u64;
    let (mut most, mut removed) = (0, 0);
    for (op, i, n) in ops {
        // short runs anywhere, long ones at the ends
        let place = op % 4;
        let at = |len: usize| match place {
            0 => 0,
            1 => len,
            2 => *i as usize % (len + 1),
            _ => [1, 127, 128, 255, 256, 257, 32768, 65535, 65536][*i as usize % 9].min(len),
        };
        let times = if place < 2 { *n as usize } else { *n as usize % 60 };
        let (mut spot, grow) = (0, op / 4 % 3 != 2);
        for _ in 0..times {
            next += 1;
            let v = if V::HAS { next } else { 0 };
            match l.take() {
                None => {
                    l = Some(<VecDeque<V> as List>::from_monad(V::mk(next)));
                    m.push_back(v);
                }
                Some(mut x) if grow => {
                    spot = at(m.len());
                    List::insert_value(&mut x, spot, V::mk(next));
                    m.insert(spot, v);
                    l = Some(x);
                }
                Some(x) => {
                    spot = at(m.len()).min(m.len() - 1);
                    let (rest, got) = List::remove_value(x, spot);
                    let want = m.remove(spot).unwrap();
                    removed += 1;
                    want!(got.id() == want, "remove_value({spot}) of {} elements returned {}, not {want}", m.len() + 1, got.id());
                    want!(rest.is_some() != m.is_empty(), "remove_value left a list: {}, with {} elements expected", rest.is_some(), m.len());
                    l = rest;
                }
            }
        }
        most = most.max(m.len());
        if let Some(x) = l.as_mut() {
            let n = m.len();
            want!(List::len(x) == n && !List::is_empty(x), "len {} (empty: {}) for {n} elements", List::len(x), List::is_empty(x));
            for p in [0, 1, 127, 128, 255, 256, 257, 511, 512, n / 4, n / 2, n / 4 * 3, 32767, 32768, 65535, 65536, 65537, n.wrapping_sub(2), n - 1, spot.wrapping_sub(1), spot, spot + 1] {
                if p < n {
                    want!(List::get(x, p).id() == m[p], "get({p}) of {n} elements is {}, not {}", List::get(x, p).id(), m[p]);
                    want!(List::get_mut(x, p).id() == m[p], "get_mut({p}) of {n} elements is {}, not {}", List::get_mut(x, p).id(), m[p]);
                    if V::HAS {
                        next += 1;
                        *List::get_mut(x, p) = V::mk(next);
                        m[p] = next;
                        want!(List::get(x, p).id() == next, "get({p}) of {n} elements after writing there is {}, not {next}", List::get(x, p).id());
                    }
                }
            }
        }
    }
    if let Some(x) = &l {
        for (p, v) in m.iter().enumerate() {
            want!(List::get(x, p).id() == *v, "get({p}) of {} elements is {}, not {v}", m.len(), List::get(x, p).id());
        }
    }
    let mut s = Stats { nontrivial: most >= 300 && removed >= 1, max_len: most, ..Stats::default() };
    s.acts = next;
    Ok(s)
}

fn entry<K: RankKey, V: Val>((k, v): (K, V)) -> (u16, u64) {
    (k.rank() as u16, v.id())
}
fn entries<T: VebTree>(t: &T) -> Vec<(u16, u64)>
where
    T::Key: RankKey + Clone,
    T::Value: Val,
{
    Iter::from(t).take(1000).map(|(k, v)| (k.rank() as u16, v.id())).collect()
}

fn trees<T: VebTree>(ops: &Ops, keyspace: u16) -> Verdict
where
    T::Key: RankKey + Clone,
    T::Value: Val,
    VecDequeMarker: TreeListMarker<T, List = VecDeque<T>>,
{
    let key = |x: u16| <T::Key as RankKey>::from_rank(x as u128);
    let val = |x: u64| <T::Value as Val>::mk(x);
    let set = std::mem::size_of::<T::Value>() == 0;
    let id = |x: u64| if set { 0 } else { x };
    let mut l: Option<VecDeque<T>> = None;
    let mut m: Vec<BTreeMap<u16, u64>> = vec![];
    let (mut most, mut emptied, mut declined) = (0, 0, 0);
    for (t, (op, i, k)) in ops.iter().enumerate() {
        let t = t as u64;
        let k = k % keyspace;
        let Some(mut x) = l.take() else {
            l = Some(<VecDeque<T> as TreeList>::from_monad(T::from_monad(key(k), val(t))));
            m = vec![BTreeMap::from([(k, id(t))])];
            continue;
        };
        let n = m.len();
        let at = *i as usize % n;
        match op % 12 {
            0..=2 => {
                let at = *i as usize % (n + 1);
                TreeList::insert_tree(&mut x, at, T::from_monad(key(k), val(t)));
                m.insert(at, BTreeMap::from([(k, id(t))]));
                l = Some(x);
            }
            3..=5 => {
                TreeList::get_mut(&mut x, at).insert(key(k), val(t));
                m[at].insert(k, id(t));
                l = Some(x);
            }
            6 | 7 => {
                let min = op % 12 == 6;
                let mut calls = 0;
                let (rest, e) = TreeList::remove_key(x, at, |t| {
                    calls += 1;
                    if min {
                        t.remove_min()
                    } else {
                        t.remove_max()
                    }
                });
                let want = if min { m[at].pop_first() } else { m[at].pop_last() }.unwrap();
                want!(calls == 1, "remove_key called back {calls} times");
                want!(entry(e) == want, "remove_key at {at} did not return {want:?}");
                let gone = m[at].is_empty();
                if gone {
                    m.remove(at);
                    emptied += 1;
                }
                match rest {
                    None => want!(m.is_empty(), "remove_key left no list although {} trees remain", m.len()),
                    Some((y, removed)) => {
                        want!(!m.is_empty(), "remove_key left a list although no tree remains");
                        want!(removed == gone, "remove_key reported removed={removed}, the tree is empty: {gone}");
                        l = Some(y);
                    }
                }
            }
            _ => {
                // aim at a stored key half of the time
                let k = if op % 2 == 0 { k } else { m[at].range(k..).next().map_or(*m[at].keys().next().unwrap(), |e| *e.0) };
                let mut calls = 0;
                let r = TreeList::maybe_remove_key(x, at, |t| {
                    calls += 1;
                    t.remove(key(k))
                });
                want!(calls == 1, "maybe_remove_key called back {calls} times");
                match (r, BTreeMap::remove(&mut m[at], &k)) {
                    (Err(y), None) => {
                        declined += 1;
                        l = Some(y);
                    }
                    (Ok((rest, e)), Some(v)) => {
                        want!(entry(e) == (k, v), "maybe_remove_key at {at} did not return ({k}, {v})");
                        let gone = m[at].is_empty();
                        if gone {
                            m.remove(at);
                            emptied += 1;
                        }
                        match rest {
                            None => want!(m.is_empty(), "maybe_remove_key left no list although {} trees remain", m.len()),
                            Some((y, removed)) => {
                                want!(!m.is_empty(), "maybe_remove_key left a list although no tree remains");
                                want!(removed == gone, "maybe_remove_key reported removed={removed}, the tree is empty: {gone}");
                                l = Some(y);
                            }
                        }
                    }
                    (r, w) => return Err(format!("maybe_remove_key of {k} at {at}: ok {} although the key was present: {}", r.is_ok(), w.is_some())),
                }
            }
        }
        most = most.max(m.len());
        want!(l.is_some() != m.is_empty(), "list present: {}, {} trees expected", l.is_some(), m.len());
        if let Some(x) = l.as_mut() {
            want!(TreeList::len(x).get() == m.len(), "len {} for {} trees", TreeList::len(x), m.len());
            for (i, w) in m.iter().enumerate() {
                let w: Vec<(u16, u64)> = w.iter().map(|(k, v)| (*k, *v)).collect();
                let g = entries(TreeList::get(x, i));
                want!(g == w, "tree {i} of {} holds {g:?}, not {w:?}", m.len());
                let g = entries(&*TreeList::get_mut(x, i));
                want!(g == w, "tree {i} of {} (mutable) holds {g:?}, not {w:?}", m.len());
            }
        }
    }
    let mut s = Stats { nontrivial: most >= 3 && emptied >= 1, max_len: most, ..Stats::default() };
    s.acts = ops.len() as u64;
    s.add("trees_emptied", emptied);
    s.add("removals_declined", declined);
    Ok(s)
}

fn run(unit: &str, ops: &Ops) -> Verdict {
    match unit {
        "values" => values::<String>(ops),
        "numbers" => values::<u64>(ops),
        "wide-values" => values::<crate::val::Wide>(ops),
        "units" => values::<()>(ops),
        "long" => long::<u64>(ops),
        "long-units" => long::<()>(ops),
        "bytesets" => trees::<ByteSet>(ops, 6),
        "bytemaps" => trees::<VebTreeType<u8, u64, Marker8>>(ops, 8),
        _ => trees::<VebTreeType<u16, u64, T16H>>(ops, 700),
    }
}
fn text(v: &Ops) -> String {
    let w: Vec<String> = v.iter().map(|(a, b, c)| format!("{:x}", (*a as u64) << 32 | (*b as u64) << 16 | *c as u64)).collect();
    format!("list-ops {}\n", w.join(" "))
}
pub fn jobs(thorough: bool) -> Vec<Job> {
    let n = if thorough { 400_000 } else { 20_000 };
    let mut jobs = vec![];
    for unit in ["long", "long-units"] {
        for ch in 0..4 {
            jobs.push(Job::new(unit, ch, 60, move |s: &mut Sink| {
                s.search(if thorough { 4_000 } else { 100 }, proptest::collection::vec((0u8..24, any::<u16>(), prop_oneof![0u16..300, any::<u16>()]), 1..24), text, |v| no_panic(|| run(unit, v)));
            }));
        }
    }
    for unit in ["values", "numbers", "wide-values", "units", "bytesets", "bytemaps", "trees"] {
        for ch in 0..6 {
            jobs.push(Job::new(unit, ch, 1, move |s: &mut Sink| {
                let len = if ch == 0 { 1..160 } else { 1..60 };
                s.search(n, proptest::collection::vec((0u8..24, any::<u16>(), any::<u16>()), len), text, |v| no_panic(|| run(unit, v)));
            }));
        }
    }
    jobs
}
pub fn replay(unit: &str, t: &str) -> Option<Verdict> {
    let ops: Ops = nums(t, "list-ops ").iter().map(|x| ((x >> 32) as u8, (x >> 16) as u16, *x as u16)).collect();
    Some(no_panic(|| run(unit, &ops)))
}
