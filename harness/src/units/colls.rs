//! C08: every child-tree collection against a map of ordered maps.
use super::*;
use crate::configs::{BoxedColl, Collide, Fnv, BM, T16B, T16H, T16HE, T2H, T32H, T4A};
use crate::drive::{Job, Sink};
use crate::gen::mask;
use crate::rank::RankKey;
use crate::val::Val;
use crate::want;
use proptest::prelude::*;
use std::collections::BTreeMap;
use veb_tree::bitset::{ByteCollectionMarker, VecDequeMarker};
use veb_tree::collection::array::{ArrayTreeCollectionMarker, GenericArrayMarker};
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::collection::{TreeCollection, VebTreeCollectionMarker};
use veb_tree::key::U4;
use veb_tree::markers::*;
use veb_tree::{Iter, VebTree};

/// (operation, choice of collection key, choice of tree key, extra)
type Op = (u8, u16, u16, u16);
#[derive(Clone, Debug)]
pub struct C {
    pool: Vec<u128>,
    ops: Vec<Op>,
}
type M = BTreeMap<u128, BTreeMap<u128, u64>>;
type K<TC> = <<TC as TreeCollection>::Tree as VebTree>::Key;
type V<TC> = <<TC as TreeCollection>::Tree as VebTree>::Value;

fn entries<T: VebTree>(t: &T) -> Vec<(u128, u64)>
where
    T::Key: RankKey + Clone,
    T::Value: Val,
{
    Iter::from(t).take(4000).map(|(k, v)| (k.rank(), v.id())).collect()
}
fn list(m: &BTreeMap<u128, u64>) -> Vec<(u128, u64)> {
    m.iter().map(|(k, v)| (*k, *v)).collect()
}

struct Run<'a, TC: TreeCollection> {
    c: &'a C,
    coll: Option<TC>,
    m: M,
    ids: u64,
    st: Stats,
    /// The collection key of the next operation, when it is not chosen by the operation itself.
    at: Option<u128>,
}
impl<TC> Run<'_, TC>
where
    TC: TreeCollection,
    TC::Hi: RankKey + Clone,
    K<TC>: RankKey + Clone,
    V<TC>: Val,
{
    fn id(&mut self) -> u64 {
        self.ids += 1;
        self.ids
    }
    fn keep(x: u64) -> u64 {
        if <V<TC> as Val>::HAS {
            x
        } else {
            0
        }
    }
    fn hi(&self, i: u16) -> u128 {
        let mk = mask(<TC::Hi as RankKey>::BITS);
        let p = self.c.pool[i as usize / 4 % self.c.pool.len()];
        match i % 4 {
            0 => p & mk,
            1 if !self.m.is_empty() => *self.m.keys().nth(i as usize / 4 % self.m.len()).unwrap(),
            1 | 2 => p.wrapping_add(1 + (i as u128 >> 10)) & mk,
            _ => (p >> 24) & mk,
        }
    }
    fn lo(&self, h: u128, j: u16) -> u128 {
        let mk = mask(<K<TC> as RankKey>::BITS);
        let p = self.c.pool[j as usize / 8 % self.c.pool.len()];
        match (j % 8, self.m.get(&h)) {
            (0..=2, Some(t)) => t.range(p & mk..).next().map_or(*t.keys().next().unwrap(), |e| *e.0),
            (3, Some(t)) => (t.keys().next_back().unwrap() + 1) & mk,
            (4, _) => p & mk,
            (5, _) => (j as u128 >> 3) & mk,
            _ => p.rotate_right(j as u32 / 64) & mk,
        }
    }
    fn pair(&mut self, l: u128) -> (K<TC>, V<TC>, u64) {
        let id = self.id();
        (<K<TC> as RankKey>::from_rank(l), <V<TC> as Val>::mk(id), Self::keep(id))
    }
    /// A removal has taken the model's entry already; checks what is left of the collection.
    fn rest(&mut self, what: &str, h: u128, rest: Option<(TC, bool)>) -> Result<(), String> {
        let gone = self.m.get(&h).map_or(true, |t| t.is_empty());
        if gone {
            M::remove(&mut self.m, &h);
            self.st.hit("trees_emptied");
        }
        match rest {
            None => {
                want!(self.m.is_empty(), "{what} left no collection although {} trees remain", self.m.len());
                self.coll = None;
            }
            Some((c, removed)) => {
                want!(!self.m.is_empty(), "{what} left a collection although no tree remains");
                want!(removed == gone, "{what} reported the tree as gone: {removed}; it is empty: {gone}");
                self.coll = Some(c);
            }
        }
        Ok(())
    }
    /// Every stored tree and some absent keys.
    fn look(&mut self, hot: u128, turn: usize) -> Result<(), String> {
        let Some(c) = self.coll.as_mut() else { return Ok(()) };
        let mk = mask(<TC::Hi as RankKey>::BITS);
        let mut ks: Vec<u128> = self.m.keys().flat_map(|h| [*h, h.wrapping_add(1) & mk, h.wrapping_sub(1) & mk]).collect();
        ks.extend([hot, 0, mk]);
        ks.extend(self.c.pool.iter().map(|p| p & mk));
        if <TC::Hi as RankKey>::BITS <= 8 && turn % 8 == 7 {
            ks.extend(0..=mk);
        }
        ks.sort_unstable();
        ks.dedup();
        for h in ks {
            let hk = <TC::Hi as RankKey>::from_rank(h);
            let w = self.m.get(&h).map(list);
            self.st.queries += 2;
            let g = c.get(&hk).map(entries);
            want!(g == w, "get({h:#x}) finds {g:x?}, not {w:x?}, in a collection of {} trees", self.m.len());
            let g = c.get_mut(&hk).map(|t| entries(t));
            want!(g == w, "get_mut({h:#x}) finds {g:x?}, not {w:x?}, in a collection of {} trees", self.m.len());
        }
        Ok(())
    }
    fn op(&mut self, &(op, i, j, n): &Op) -> Result<u128, String> {
        let h = self.at.take().unwrap_or_else(|| self.hi(i));
        let hk = <TC::Hi as RankKey>::from_rank(h);
        self.st.acts += 1;
        let Some(mut c) = self.coll.take() else {
            let mut l = self.lo(h, j);
            let (k, v, id) = self.pair(l);
            let mut t = TC::Tree::from_monad(k, v);
            let mut m = BTreeMap::from([(l, id)]);
            for _ in 0..n % 4 {
                l = (l + 1 + (n as u128 >> 4)) & mask(<K<TC> as RankKey>::BITS);
                let (k, v, id) = self.pair(l);
                t.insert(k, v);
                m.insert(l, id);
            }
            self.coll = Some(TC::create(&hk, t));
            self.m = M::from([(h, m)]);
            return Ok(h);
        };
        let byref = n & 1 == 1;
        match op % 16 {
            0..=5 => {
                let l = self.lo(h, j);
                let (k, v, id) = self.pair(l);
                let r = c.insert_key(hk, (k, v));
                let had = self.m.contains_key(&h);
                let old = self.m.entry(h).or_default().insert(l, id);
                match r {
                    Ok(x) => {
                        want!(!had, "insert_key({h:#x}, {l:#x}) says the tree is new; it was there");
                        want!(x.rank() == h, "insert_key({h:#x}, ..) hands back key {:#x}", x.rank());
                    }
                    Err((x, e)) => {
                        want!(had, "insert_key({h:#x}, {l:#x}) says the tree was there; it was not");
                        want!(x.rank() == h, "insert_key({h:#x}, ..) hands back key {:#x}", x.rank());
                        let (g, w) = (e.map(|(k, v)| (k.rank(), v.id())), old.map(|o| (l, o)));
                        want!(g == w, "insert_key({h:#x}, {l:#x}) replaced {g:x?}, not {w:x?}");
                    }
                }
                self.coll = Some(c);
            }
            6 | 7 => {
                // change a tree in place
                if let Some(t) = c.get_mut(&hk) {
                    let l = self.lo(h, j);
                    let (k, v, id) = self.pair(l);
                    t.insert(k, v);
                    self.m.entry(h).or_default().insert(l, id);
                } else {
                    want!(!self.m.contains_key(&h), "get_mut({h:#x}) finds nothing");
                }
                self.coll = Some(c);
            }
            8..=10 => {
                // unconditional removal of something that is there
                let h = if self.m.contains_key(&h) { h } else { self.m.range(h..).next().map_or(*self.m.keys().next().unwrap(), |e| *e.0) };
                let hk = <TC::Hi as RankKey>::from_rank(h);
                let t = self.m.get_mut(&h).unwrap();
                let how = op % 16;
                let l = match how {
                    8 => *t.keys().next().unwrap(),
                    9 => *t.keys().next_back().unwrap(),
                    _ => *t.keys().nth(j as usize % t.len()).unwrap(),
                };
                let w = (l, t.remove(&l).unwrap());
                let mut calls = 0;
                let mut missing = false;
                let lk = <K<TC> as RankKey>::from_rank(l);
                let f = |t: TC::Tree| {
                    calls += 1;
                    match how {
                        8 => t.remove_min(),
                        9 => t.remove_max(),
                        _ => match t.remove(lk) {
                            Ok(r) => r,
                            Err(t) => {
                                missing = true;
                                t.remove_min()
                            }
                        },
                    }
                };
                let (rest, (k, v)) = if byref { c.remove_key(&hk, f) } else { c.remove_key(hk, f) };
                want!(calls == 1, "remove_key({h:#x}) called back {calls} times");
                want!(!missing, "remove_key({h:#x}): the tree does not hold {l:#x}");
                want!((k.rank(), v.id()) == w, "remove_key({h:#x}) returned ({:#x}, {}), not {w:x?}", k.rank(), v.id());
                self.rest("remove_key", h, rest)?;
                return Ok(h);
            }
            11..=14 => {
                let l = self.lo(h, j);
                let lk = <K<TC> as RankKey>::from_rank(l);
                let mut calls = 0;
                let f = |t: TC::Tree| {
                    calls += 1;
                    t.remove(lk)
                };
                let r = if byref { c.maybe_remove_key(&hk, f) } else { c.maybe_remove_key(hk, f) };
                want!(calls == self.m.contains_key(&h) as u32, "maybe_remove_key({h:#x}) called back {calls} times");
                match (r, self.m.get_mut(&h).and_then(|t| t.remove(&l))) {
                    (Err(c), None) => {
                        self.st.hit(if self.m.contains_key(&h) { "declined_in_tree" } else { "declined_no_tree" });
                        self.coll = Some(c);
                    }
                    (Ok((rest, (k, v))), Some(w)) => {
                        want!(
                            (k.rank(), v.id()) == (l, w),
                            "maybe_remove_key({h:#x}) returned ({:#x}, {}), not ({l:#x}, {w})",
                            k.rank(),
                            v.id()
                        );
                        self.rest("maybe_remove_key", h, rest)?;
                    }
                    (r, w) => {
                        return Err(format!("maybe_remove_key({h:#x}, {l:#x}) succeeded: {}, the entry was there: {}", r.is_ok(), w.is_some()));
                    }
                }
            }
            _ => {
                // unconditional removal under a missing key, then start over
                if self.m.contains_key(&h) {
                    self.coll = Some(c);
                    return Ok(h);
                }
                let f = |t: TC::Tree| t.remove_min();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if byref {
                        c.remove_key(&hk, f)
                    } else {
                        c.remove_key(hk, f)
                    }
                }));
                if let Ok((_, (k, _))) = r {
                    return Err(format!("remove_key under the missing key {h:#x} returned an entry ({:#x}) instead of panicking", k.rank()));
                }
                last_panic();
                self.st.hit("missing_key_panics");
                self.m.clear();
            }
        }
        Ok(h)
    }
}

impl<TC> Run<'_, TC>
where
    TC: TreeCollection,
    TC::Hi: RankKey + Clone,
    K<TC>: RankKey + Clone,
    V<TC>: Val,
{
    /// Fills many slots, up to all of a small key type, or empties many trees.
    fn sweep(&mut self, &(op, i, j, n): &Op, turn: usize) -> Result<(), String> {
        let bits = <TC::Hi as RankKey>::BITS;
        let mk = mask(bits);
        let most = if n == 0xffff && bits <= 16 { 1 << bits } else { [16, 70, 256, 300][n as usize / 2 % 4].min(1u128 << bits.min(64)) };
        let start = self.hi(i);
        if op < 59 {
            // an odd stride visits every key of a small type
            let stride = [1, 1, mk, 3, 7, 129, 0x101, 255][n as usize / 8 % 8] | 1;
            for x in 0..most {
                self.at = Some(start.wrapping_add(x.wrapping_mul(stride)) & mk);
                self.op(&(0, 0, j.wrapping_add(x as u16 & 3), n))?;
            }
            if self.m.len() as u128 > mk {
                self.st.hit("all_slots_occupied");
            }
        } else {
            let keep = [0, 1, 2, self.m.len() / 2][n as usize / 2 % 4];
            while self.m.len() > keep {
                let h = match n / 8 % 3 {
                    0 => *self.m.keys().next().unwrap(),
                    1 => *self.m.keys().next_back().unwrap(),
                    _ => self.m.range(start..).next().map_or(*self.m.keys().next().unwrap(), |e| *e.0),
                };
                self.at = Some(h);
                // by conditional or unconditional removal of its entries
                let code = [8, 9, 10, 11][n as usize / 32 % 4];
                let l = if code == 11 { 0 } else { j };
                self.op(&(code, 0, l, n))?;
                want!(self.coll.is_some() != self.m.is_empty(), "collection present: {}, {} trees expected", self.coll.is_some(), self.m.len());
            }
        }
        self.st.max_len = self.st.max_len.max(self.m.len());
        self.look(start, turn)
    }
}

fn run<TC>(c: &C) -> Verdict
where
    TC: TreeCollection,
    TC::Hi: RankKey + Clone,
    K<TC>: RankKey + Clone,
    V<TC>: Val,
{
    let mut r = Run::<TC> { c, coll: None, m: M::new(), ids: 0, st: Stats::default(), at: None };
    for (turn, o) in c.ops.iter().enumerate() {
        if o.0 >= 56 {
            r.sweep(o, turn)?;
            continue;
        }
        let reps = if o.0 >= 48 && o.0 < 54 { o.3 as usize % 24 } else { 1 };
        for x in 0..reps {
            // a run walks over neighbouring collection keys
            let hot = r.op(&(o.0 % 16, o.1.wrapping_add((x as u16) << 10 & 0xfc00), o.2.wrapping_add(x as u16 * 8), o.3))?;
            want!(r.coll.is_some() != r.m.is_empty(), "collection present: {}, {} trees expected", r.coll.is_some(), r.m.len());
            if x % 8 == 0 {
                r.look(hot, turn)?;
            }
            r.st.max_len = r.st.max_len.max(r.m.len());
        }
    }
    r.look(0, 7)?;
    let mut st = r.st;
    st.nontrivial = st.max_len >= 3 && st.n("trees_emptied") >= 1;
    Ok(st)
}

type Arr<T> = ArrayTreeCollectionMarker<BoxMarker<T>>;
type Gen<T> = ArrayTreeCollectionMarker<GenericArrayMarker<T>>;
type Bc<T> = ByteCollectionMarker<VecDequeMarker, T>;
type TC<M, K, V> = <M as VebTreeCollectionMarker<K, V>>::TreeCollection;

type Kind = (&'static str, fn(&C) -> Verdict);
fn kinds() -> Vec<Kind> {
    vec![
        ("array.u4", run::<TC<Arr<BM>, veb_tree::key::U4, u64>>),
        ("array.u8", run::<TC<Arr<T4A>, u8, u64>>),
        ("array.i8", run::<TC<Arr<BM>, i8, u64>>),
        ("array.u4x2", run::<TC<Arr<T4A>, [U4; 2], u64>>),
        ("array.u16", run::<TC<Arr<Marker8>, u16, u64>>),
        ("array.u16.set", run::<TC<Arr<Marker8Empty>, u16, ()>>),
        ("array.i8x2", run::<TC<Arr<BM>, [i8; 2], u64>>),
        ("array.str", run::<TC<Arr<BM>, i16, String>>),
        ("generic.u4", run::<TC<Gen<T2H>, U4, u64>>),
        ("generic.u8", run::<TC<Gen<T4A>, u8, u64>>),
        ("generic.u16.box", run::<TC<BoxedColl<Gen<Marker8>>, u16, u64>>),
        ("hash.u16", run::<TC<HashMapMarker<Marker8>, u16, u64>>),
        ("hash.u16.set", run::<TC<HashMapMarker<Marker8Empty>, u16, ()>>),
        ("hash.u16.collide", run::<TC<HashMapMarker<Marker8, Collide>, u16, u64>>),
        ("hash.u32", run::<TC<HashMapMarker<T16HE, Fnv>, i32, ()>>),
        ("hash.u64", run::<TC<HashMapMarker<T32H, Fnv>, u64, u64>>),
        ("hash.i128", run::<TC<HashMapMarker<BM>, i128, u64>>),
        ("hash.strx2", run::<TC<HashMapMarker<BM>, [String; 2], String>>),
        ("hash.box", run::<TC<BoxedColl<HashMapMarker<Marker8>>, u16, u64>>),
        ("bytes.u16", run::<TC<Bc<Marker8>, u16, u64>>),
        ("bytes.u16.set", run::<TC<Bc<Marker8Empty>, u16, ()>>),
        ("bytes.u8x3", run::<TC<Bc<T16B>, [u8; 3], u64>>),
        ("bytes.u8x2.hash", run::<TC<Bc<BM>, [u8; 2], String>>),
        ("bytes.box", run::<TC<BoxedColl<Bc<Marker8>>, u16, u64>>),
        ("bytes.u8x3.deep", run::<TC<Bc<T16H>, [u8; 3], u64>>),
        ("array.u32", run::<TC<Arr<BM>, u32, u64>>),
        ("array.box", run::<TC<BoxedColl<Arr<Marker8>>, u16, u64>>),
    ]
}

fn strategy() -> impl Strategy<Value = C> {
    let pool = proptest::collection::vec(
        (0u8..5, any::<u128>()).prop_map(|(m, x)| match m {
            0 => x,
            1 => x & 0x0303_0303_0303_0303_0303,
            2 => u128::MAX - (x & 0xffff),
            3 => 0x7f80_7f80_7f80_7f80_7f80_7f80_7f80_7f80u128.rotate_left(x as u32 % 128),
            _ => x & 0xff,
        }),
        1..10,
    );
    let op = (prop_oneof![30 => 0u8..56, 1 => 56u8..61], any::<u16>(), any::<u16>(), any::<u16>());
    (pool, prop_oneof![3 => proptest::collection::vec(op.clone(), 1..30), 1 => proptest::collection::vec(op, 1..120)])
        .prop_map(|(pool, ops)| C { pool, ops })
}
fn text(c: &C) -> String {
    let p: Vec<String> = c.pool.iter().map(|k| format!("{k:x}")).collect();
    let w: Vec<String> = c
        .ops
        .iter()
        .map(|(a, b, c, d)| format!("{:x}", (*a as u128) << 48 | (*b as u128) << 32 | (*c as u128) << 16 | *d as u128))
        .collect();
    format!("pool {}\ncoll-ops {}\n", p.join(" "), w.join(" "))
}
pub fn jobs(thorough: bool) -> Vec<Job> {
    let n = if thorough { 30_000 } else { 1_600 };
    let mut jobs = vec![];
    for (name, f) in kinds() {
        if name == "array.u32" {
            // 65 536 slots: few cases, all slots filled in half of them
            let n = if thorough { 300 } else { 12 };
            for ch in 0..2 {
                jobs.push(Job::new(name, ch, 100, move |s: &mut Sink| {
                    let st = (strategy(), any::<u16>(), any::<bool>()).prop_map(|(mut c, i, all)| {
                        c.ops.truncate(12);
                        if all {
                            c.ops.insert(c.ops.len() / 2, (56, i, 3, 0xffff));
                        }
                        c
                    });
                    s.search(n, st, text, |c| no_panic(|| f(c)))
                }));
            }
            continue;
        }
        for ch in 0..4 {
            jobs.push(Job::new(name, ch, 1, move |s: &mut Sink| s.search(n, strategy(), text, |c| no_panic(|| f(c)))));
        }
    }
    jobs
}
pub fn replay(unit: &str, t: &str) -> Option<Verdict> {
    let (_, f) = kinds().into_iter().find(|k| k.0 == unit)?;
    let ops = nums(t, "coll-ops ").iter().map(|x| ((x >> 48) as u8, (x >> 32) as u16, (x >> 16) as u16, *x as u16)).collect();
    let pool = nums(t, "pool ");
    if pool.is_empty() {
        return None;
    }
    Some(no_panic(|| f(&C { pool, ops })))
}
