//! C11: key operations per tree operation, on recursive trees over keys of 2^d bytes, and
//! requests to parts, on trees whose parts count them.
use super::*;
use crate::act::*;
use crate::drive::{Job, Sink};
use crate::dyntree::{Caps, DynTree, W};
use crate::gen::*;
use crate::rank::RankKey;
use crate::want;
use proptest::prelude::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hasher};
use std::sync::atomic::{AtomicU64, Ordering as O};
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::key::{MaybeBorrowed, VebKey, VebKeyRef};
use crate::spy::{Spy, SpyA, SpyC, SpyL};
use veb_tree::bitset::{ByteCollectionMarker, ByteTreeMarker, VecDequeMarker};
use veb_tree::collection::array::ArrayTreeCollectionMarker;
use crate::configs::SizedMarker;
use veb_tree::markers::{BoxMarker, Marker8, Marker8Empty, VebTreeType};
use veb_tree::tree::TreeMarker;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    /// How a rank is laid out over a long key.
    static LAYOUT: Cell<u16> = const { Cell::new(0) };
}
const RUNAWAY: u64 = 3_000_000;
fn tick() {
    COUNT.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        if n == RUNAWAY {
            panic!("{RUNAWAY} key operations in one call");
        }
    })
}
fn reset() {
    COUNT.with(|c| c.set(0))
}
fn count() -> u64 {
    COUNT.with(|c| c.get())
}

/// Writes the big-endian bytes of a rank over `n` bytes, keeping the order.
fn lay(r: u128, b: &mut [u8]) {
    let n = b.len();
    if n <= 16 {
        for (i, x) in b.iter_mut().rev().enumerate() {
            *x = (r >> (8 * i)) as u8;
        }
        return;
    }
    let m = n / 16;
    let src = r.to_be_bytes();
    for (i, x) in src.iter().enumerate() {
        match LAYOUT.with(|l| l.get()) % 5 {
            0 => b[i * m..(i + 1) * m].fill(*x),
            1 => b[i * m] = *x,
            2 => b[i * m + m - 1] = *x,
            3 => b[i] = *x,
            _ => b[n - 16 + i] = *x,
        }
    }
}
fn unlay(b: &[u8]) -> u128 {
    let n = b.len();
    if n <= 16 {
        return b.iter().fold(0, |r, x| r << 8 | *x as u128);
    }
    let m = n / 16;
    (0..16).fold(0, |r, i| {
        let x = match LAYOUT.with(|l| l.get()) % 5 {
            0 | 1 => b[i * m],
            2 => b[i * m + m - 1],
            3 => b[i],
            _ => b[n - 16 + i],
        };
        r << 8 | x as u128
    })
}

trait Bytes {
    fn put(b: &[u8]) -> Self;
    fn with<R>(&self, f: impl FnOnce(&[u8]) -> R) -> R;
}
impl Bytes for u8 {
    fn put(b: &[u8]) -> u8 {
        b[0]
    }
    fn with<R>(&self, f: impl FnOnce(&[u8]) -> R) -> R {
        f(&[*self])
    }
}
macro_rules! counted {
    ($n:ident, $half:ty, $len:expr) => {
        pub struct $n([u8; $len]);
        impl Bytes for $n {
            fn put(b: &[u8]) -> Self {
                $n(b.try_into().expect("harness key length"))
            }
            fn with<R>(&self, f: impl FnOnce(&[u8]) -> R) -> R {
                f(&self.0)
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                tick();
                $n(self.0)
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                tick();
                self.0 == o.0
            }
        }
        impl Eq for $n {}
        impl PartialOrd for $n {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $n {
            fn cmp(&self, o: &Self) -> Ordering {
                tick();
                self.0.cmp(&o.0)
            }
        }
        // the cost of hashing belongs to the hash map
        impl std::hash::Hash for $n {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                self.0.hash(h)
            }
        }
        impl VebKey for $n {
            type Hi = $half;
            type Lo = $half;
            fn split_val(self) -> ($half, $half) {
                tick();
                (<$half>::put(&self.0[..$len / 2]), <$half>::put(&self.0[$len / 2..]))
            }
            fn join(h: MaybeBorrowed<'_, $half>, l: MaybeBorrowed<'_, $half>) -> Self {
                tick();
                let mut b = [0; $len];
                h.with(|x| b[..$len / 2].copy_from_slice(x));
                l.with(|x| b[$len / 2..].copy_from_slice(x));
                $n(b)
            }
        }
        impl VebKeyRef<$half, $half> for $n {
            fn split_ref<F, R>(&self, f: F) -> R
            where
                F: FnOnce(&$half, &$half) -> R,
            {
                tick();
                f(&<$half>::put(&self.0[..$len / 2]), &<$half>::put(&self.0[$len / 2..]))
            }
        }
        impl RankKey for $n {
            const BITS: u32 = if $len >= 16 { 128 } else { 8 * $len };
            fn from_rank(r: u128) -> Self {
                let mut b = [0; $len];
                lay(r, &mut b);
                $n(b)
            }
            fn rank(&self) -> u128 {
                unlay(&self.0)
            }
        }
    };
}
counted!(K1, u8, 2);
counted!(K2, K1, 4);
counted!(K3, K2, 8);
counted!(K4, K3, 16);
counted!(K5, K4, 32);
counted!(K6, K5, 64);
counted!(K7, K6, 128);
counted!(K8, K7, 256);
counted!(K9, K8, 512);
counted!(K10, K9, 1024);

/// A hasher that mixes well, so that hash maps rarely compare different keys.
#[derive(Clone, Copy, Default)]
struct Mix;
struct MixHasher(u64);
impl BuildHasher for Mix {
    type Hasher = MixHasher;
    fn build_hasher(&self) -> MixHasher {
        MixHasher(0x243f_6a88_85a3_08d3)
    }
}
impl Hasher for MixHasher {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(23) ^ u64::from_le_bytes(w)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            self.0 ^= self.0 >> 32;
        }
    }
}

type E1 = TreeMarker<Marker8Empty, HashMapMarker<Marker8Empty, Mix>>;
type E2 = TreeMarker<E1, HashMapMarker<E1, Mix>>;
type E3 = TreeMarker<E2, HashMapMarker<E2, Mix>>;
type E4 = TreeMarker<E3, HashMapMarker<E3, Mix>>;
type E5 = TreeMarker<E4, HashMapMarker<E4, Mix>>;
type E6 = TreeMarker<E5, HashMapMarker<E5, Mix>>;
type E7 = TreeMarker<E6, HashMapMarker<E6, Mix>>;
type E8 = TreeMarker<E7, HashMapMarker<E7, Mix>>;
type E9 = TreeMarker<E8, HashMapMarker<E8, Mix>>;
type M1 = TreeMarker<Marker8Empty, HashMapMarker<Marker8, Mix>>;
type M2 = TreeMarker<E1, HashMapMarker<M1, Mix>>;
type M3 = TreeMarker<E2, HashMapMarker<M2, Mix>>;
type M4 = TreeMarker<E3, HashMapMarker<M3, Mix>>;
type M5 = TreeMarker<E4, HashMapMarker<M4, Mix>>;
type M6 = TreeMarker<E5, HashMapMarker<M5, Mix>>;
type M7 = TreeMarker<E6, HashMapMarker<M6, Mix>>;
type M8 = TreeMarker<E7, HashMapMarker<M7, Mix>>;
type M9 = TreeMarker<E8, HashMapMarker<M8, Mix>>;
type M10 = TreeMarker<E9, HashMapMarker<M9, Mix>>;

// Trees whose every part counts the requests made to it.
type P1 = TreeMarker<Spy<0>, SpyC<Spy<0>, 1>>;
type P2 = TreeMarker<P1, SpyC<P1, 1>>;
type P3 = TreeMarker<P2, SpyC<P2, 1>>;
type P4 = TreeMarker<P3, SpyC<P3, 1>>;
type L1 = TreeMarker<ByteTreeMarker<SpyL<0>>, ByteCollectionMarker<SpyL<0>, ByteTreeMarker<SpyL<0>>>>;
type L2 = TreeMarker<L1, SpyC<L1, 1>>;
type A1 = TreeMarker<Spy<0>, ArrayTreeCollectionMarker<SpyA<u8, Spy<0>>>>;
type A2 = TreeMarker<A1, ArrayTreeCollectionMarker<SpyA<u16, A1>>>;
// The crate's own collections over parts that count.
type H1 = TreeMarker<Spy<0>, HashMapMarker<Spy<0>, Mix>>;
type H2 = TreeMarker<H1, HashMapMarker<H1, Mix>>;
type H3 = TreeMarker<H2, HashMapMarker<H2, Mix>>;
type B1 = TreeMarker<Spy<0>, ByteCollectionMarker<VecDequeMarker, Spy<0>>>;
type R1 = TreeMarker<Spy<0>, ArrayTreeCollectionMarker<BoxMarker<Spy<0>>>>;
type R2 = TreeMarker<R1, HashMapMarker<B1, Mix>>;
/// Name, width of the keys, halvings, tree.
type Watched = (&'static str, u32, u64, fn() -> Box<dyn DynTree>);
const WATCHED: [Watched; 17] = {
    macro_rules! w {
        ($k:ty, $m:ty) => {
            || W::<VebTreeType<$k, u64, $m>>::boxed(Caps::NONE)
        };
    }
    [
        ("qcoll16", 16, 1, w!(u16, P1)),
        ("qcoll32", 32, 2, w!(i32, P2)),
        ("qcoll64", 64, 3, w!(u64, P3)),
        ("qcoll128", 128, 4, w!(u128, P4)),
        ("qlist8", 8, 1, w!(u8, ByteTreeMarker<SpyL<0>>)),
        ("qlist16", 16, 1, w!(u16, L1)),
        ("qlist32", 32, 2, w!(u32, L2)),
        ("qarray16", 16, 1, w!(u16, A1)),
        ("qarray32", 32, 2, w!(u32, A2)),
        ("qhash16", 16, 1, w!(u16, H1)),
        ("qhash32", 32, 2, w!(i32, H2)),
        ("qhash64", 64, 3, w!(u64, H3)),
        ("qbytes16", 16, 1, w!(u16, B1)),
        ("qboxarray16", 16, 1, w!(u16, R1)),
        ("qmixed32", 32, 2, w!(u32, R2)),
        ("qsized32", 32, 2, w!(u32, SizedMarker<P2>)),
        ("qboxed64", 64, 3, w!(u64, BoxMarker<P3>)),
    ]
};

fn make(d: u32) -> Box<dyn DynTree> {
    macro_rules! w {
        ($k:ty, $m:ty) => {
            W::<VebTreeType<$k, u64, $m>>::boxed(Caps::NONE)
        };
    }
    match d {
        1 => w!(K1, M1),
        2 => w!(K2, M2),
        3 => w!(K3, M3),
        4 => w!(K4, M4),
        5 => w!(K5, M5),
        6 => w!(K6, M6),
        7 => w!(K7, M7),
        8 => w!(K8, M8),
        9 => w!(K9, M9),
        _ => w!(K10, M10),
    }
}

/// Allowed key operations in d. About twice what the crate needs (insert/find 5d, remove 6d,
/// remove_min/max 2d+1, predecessor 7d, successor 8d), so that other linear ways of writing an
/// operation fit, such as a mutable neighbour query that looks its answer up again.
fn limit(a: &Act, d: u64) -> Option<u64> {
    Some(match a {
        Act::Insert(..) | Act::Find(_) | Act::FindMut(..) => 10 * d + 8,
        Act::Remove(_) => 12 * d + 8,
        Act::RemoveMin | Act::RemoveMax => 8 * d + 8,
        Act::Pred(_) => 12 * d + 8,
        Act::Succ(_) => 14 * d + 8,
        Act::PredMut(..) => 15 * d + 10,
        Act::SuccMut(..) => 16 * d + 10,
        Act::Start(..) | Act::Min | Act::Max | Act::MinMut(_) | Act::MaxMut(_) | Act::IsMonad | Act::LenHint => 10,
        Act::IntoMonad => 10,
        _ => return None,
    })
}
/// Allowed requests to parts in d. The crate needs at most 2d+3 (and 2 for the constant ones).
fn limit_parts(a: &Act, d: u64) -> Option<u64> {
    Some(match a {
        Act::Insert(..) | Act::Find(_) | Act::FindMut(..) | Act::Remove(_) | Act::RemoveMin | Act::RemoveMax => 4 * d + 10,
        Act::Pred(_) | Act::Succ(_) | Act::PredMut(..) | Act::SuccMut(..) => 4 * d + 12,
        Act::Start(..) | Act::Min | Act::Max | Act::MinMut(_) | Act::MaxMut(_) | Act::IsMonad | Act::LenHint | Act::IntoMonad => 6,
        _ => return None,
    })
}
/// Largest counts seen, for tuning: [operation][d, or 11 + index of the watched tree].
pub static SEEN: [[AtomicU64; 28]; 8] = [const { [const { AtomicU64::new(0) }; 28] }; 8];
fn row(a: &Act) -> usize {
    match a {
        Act::Insert(..) => 0,
        Act::Remove(_) => 1,
        Act::RemoveMin => 2,
        Act::RemoveMax => 3,
        Act::Find(_) | Act::FindMut(..) => 4,
        Act::Pred(_) | Act::PredMut(..) => 5,
        Act::Succ(_) | Act::SuccMut(..) => 6,
        _ => 7,
    }
}

struct R<'a> {
    d: u64,
    /// Count requests to the parts of this watched tree instead of key operations.
    parts: Option<usize>,
    case: &'a Case,
    tree: Box<dyn DynTree>,
    model: Model,
    st: Stats,
    n: u64,
}
impl R<'_> {
    /// `Ok(false)`: the answers went wrong, which other properties judge.
    fn one(&mut self, a: Act) -> Result<bool, String> {
        reset();
        crate::spy::asked();
        let got = apply(&mut *self.tree, &a);
        let c = if self.parts.is_some() { crate::spy::asked() } else { count() };
        reset();
        let len = self.model.m.len();
        let want = self.model.apply(&a);
        let l = if self.parts.is_some() { limit_parts(&a, self.d) } else { limit(&a, self.d) };
        if let Some(l) = l {
            SEEN[row(&a)][self.parts.map_or(self.d as usize, |i| 11 + i)].fetch_max(c, O::Relaxed);
            self.n += 1;
            if self.parts.is_some() {
                want!(
                    c <= l,
                    "{} made {c} requests to the parts of a tree of {} bits ({} halvings) with {len} entries stored (allowed: {l})",
                    show(&a),
                    self.case.bits,
                    self.d
                );
            }
            want!(
                c <= l,
                "{} took {c} key operations on keys of {} bytes ({} halvings) with {len} entries stored (allowed: {l})",
                show(&a),
                1 << self.d,
                self.d
            );
            if len >= 100 && c > 4 {
                self.st.hit("measured_over_100_entries");
            }
            if c > 3 * self.d {
                self.st.hit("deep_descents");
            }
        }
        self.st.max_len = self.st.max_len.max(self.model.m.len());
        Ok(agree(&got, &want, false))
    }
    /// The work of each step of an iteration; bit t of the (repeated) pattern: step t is taken from the back.
    fn steps(&mut self, pattern: u64) -> Result<bool, String> {
        let len = self.model.m.len();
        if len == 0 || len > 1_000 {
            return Ok(true);
        }
        let parts = self.parts.is_some();
        let spent = || {
            let c = if parts { crate::spy::asked() } else { count() };
            reset();
            c
        };
        let (mut worst, mut step, mut seen) = (0, 0usize, 0);
        spent();
        let r = guard(|| {
            self.tree.iter(&mut |s| {
                worst = spent().max(worst);
                seen += s.item.is_some() as usize;
                if step > len + 3 {
                    return None;
                }
                step += 1;
                Some(pattern >> (step % 61) & 1 == 1)
            });
            Obs::Unit
        });
        spent();
        SEEN[7][self.parts.map_or(self.d as usize, |i| 11 + i)].fetch_max(worst, O::Relaxed);
        let l = if parts { 4 * self.d + 16 } else { 16 * self.d + 14 };
        let what = if parts { "requests to parts" } else { "key operations" };
        want!(
            worst <= l,
            "a step of an iteration (pattern {pattern:#x}) took {worst} {what} ({} halvings) with {len} entries stored (allowed: {l})",
            self.d
        );
        self.st.hit("iterations");
        Ok(seen == len && !matches!(r, Obs::Panic(..)))
    }
    fn probe(&mut self, hot: u128, turn: usize) -> Result<bool, String> {
        if self.model.m.is_empty() {
            return Ok(true);
        }
        let mk = mask(self.case.bits);
        let p = &self.case.pool;
        let mut ks = vec![hot, hot.wrapping_add(1) & mk, hot.wrapping_sub(1) & mk, p[turn % p.len()]];
        for x in [p[turn % p.len()], hot] {
            ks.extend(self.model.pred(x).map(|e| e.0));
            ks.extend(self.model.succ(x).map(|e| e.0));
        }
        for k in ks {
            for a in [Act::Find(k), Act::Pred(k), Act::Succ(k), Act::FindMut(k, None), Act::PredMut(k, None), Act::SuccMut(k, None)] {
                if !self.one(a)? {
                    return Ok(false);
                }
            }
        }
        for a in [Act::Min, Act::Max, Act::MinMut(None), Act::MaxMut(None), Act::IsMonad, Act::LenHint] {
            if !self.one(a)? {
                return Ok(false);
            }
        }
        Ok(true)
    }
    fn go(&mut self, product: bool) -> Result<bool, String> {
        let mut ids = Ids(0);
        let mut acts = vec![];
        if product {
            let keys = product_keys(self.case, self.d as u32);
            let step = 1 + self.case.flavor as usize % 997;
            let turns = if keys.len() % step == 0 { 1 } else { step };
            for i in 0..keys.len() {
                let k = keys[i * turns % keys.len()];
                let a = if self.model.m.is_empty() { Act::Start(k, ids.fresh()) } else { Act::Insert(k, ids.fresh()) };
                if !self.one(a)? {
                    return Ok(false);
                }
            }
            for p in [0, u64::MAX, 0x5555_5555_5555_5555, (self.case.flavor as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)] {
                if !self.steps(p)? {
                    return Ok(false);
                }
            }
            for i in 0..200 {
                if !self.probe(keys[(i * 7919 + self.case.flavor as usize) % keys.len()], i)? {
                    return Ok(false);
                }
            }
        }
        for (turn, op) in self.case.ops.iter().enumerate() {
            resolve(op, self.case, &self.model, &mut ids, &mut acts);
            let mut hot = 0;
            for a in &acts {
                let Some(a) = adapt(*a, &self.model) else { continue };
                if let Act::Insert(k, _) | Act::Remove(k) = a {
                    hot = k;
                }
                if !self.one(a)? {
                    return Ok(false);
                }
            }
            if turn % 8 == 3 && !self.steps((self.case.flavor as u64 + turn as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15))? {
                return Ok(false);
            }
            if !self.probe(hot, turn)? {
                return Ok(false);
            }
        }
        // taking the tree apart is measured as well
        let mut turn = self.case.flavor as usize;
        while !self.model.m.is_empty() {
            let (min, max) = (self.model.min().unwrap().0, self.model.max().unwrap().0);
            let x = self.case.pool[turn % self.case.pool.len()];
            let a = match turn % 5 {
                0 => Act::RemoveMin,
                1 => Act::RemoveMax,
                2 => Act::Remove(min),
                3 => Act::Remove(max),
                _ => Act::Remove(self.model.succ(x).map_or(min, |e| e.0)),
            };
            if !self.one(a)? {
                return Ok(false);
            }
            turn = if self.case.flavor & 1 == 0 { turn + 1 } else { turn * 7 + 3 & 0xffff };
        }
        Ok(true)
    }
}
/// A product of small sets, one for each two bytes: every node on every level has several subtrees.
fn product_keys(case: &Case, d: u32) -> Vec<u128> {
    let slots = 1usize << (d - 1).min(3);
    let mut keys = vec![0u128];
    for j in 0..slots {
        let raw = case.pool[j % case.pool.len()].wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835);
        let n = match slots {
            8 => 3 + (raw >> 97) as usize % 4 / 3,
            4 => 3 + (raw >> 97) as usize % 4,
            _ => 3 + (raw >> 97) as usize % 12,
        };
        let set: std::collections::BTreeSet<u16> = (0..n)
            .map(|i| {
                let w = (raw >> (i * 7)) as u16;
                if raw >> 126 & 1 == 0 { w } else { w & 0x0303 }
            })
            .collect();
        keys = keys.iter().flat_map(|k| set.iter().map(move |x| k << 16 | *x as u128)).collect();
    }
    keys
}
fn run(d: u32, product: bool, case: &Case) -> Verdict {
    LAYOUT.with(|l| l.set(case.flavor >> 4));
    finish(R { d: d as u64, parts: None, case, tree: make(d), model: Model::new(true), st: Stats::default(), n: 0 }, product)
}
fn watched(i: usize, product: bool, case: &Case) -> Verdict {
    crate::spy::reset();
    let (_, _, d, make) = WATCHED[i];
    finish(R { d, parts: Some(i), case, tree: make(), model: Model::new(true), st: Stats::default(), n: 0 }, product)
}
fn finish(mut r: R, product: bool) -> Verdict {
    let ended = r.go(product)?;
    let _ = guard(|| {
        r.tree.clear();
        Obs::Unit
    });
    let mut st = r.st;
    st.abandoned = !ended;
    st.queries = r.n;
    st.nontrivial = st.max_len >= 8 && st.n("deep_descents") >= 1 || r.parts.is_some() && st.max_len >= 8;
    Ok(st)
}

/// Pools whose keys differ in few bytes, so that all levels hold subtrees with several entries.
fn related(bits: u32) -> impl Strategy<Value = Vec<u128>> {
    let bytes = (bits / 8) as u8;
    (any::<u128>(), proptest::collection::vec((any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()), 1..24)).prop_map(move |(base, edits)| {
        let mut v = vec![base & mask(bits)];
        for (from, at, what, two) in edits {
            let mut k = v[from as usize % v.len()];
            let mut set = |at: u8, x: u8| {
                let sh = 8 * (at % bytes) as u32;
                k = (k & !(0xffu128 << sh)) | (x as u128) << sh;
            };
            set(at, what);
            if two & 1 == 1 {
                set(two >> 1, what.wrapping_mul(31));
            }
            v.push(k);
        }
        v
    })
}
fn strategy(d: u32, big: bool) -> impl Strategy<Value = Case> {
    wide(if d >= 4 { 128 } else { 8 << d }, big)
}
fn wide(bits: u32, big: bool) -> impl Strategy<Value = Case> {
    let w: Weights = if big { [10, 8, 2, 2, 1, 20, 2, 1, 1, 0, 0, 0, 0] } else { [40, 24, 4, 4, 2, 6, 3, 1, 1, 0, 0, 0, 0] };
    let sh = Shape { bits, weights: w, max_ops: if big { 40 } else { 120 }, max_run: if big { 900 } else { 120 } };
    (case_strategy(sh), related(bits), any::<u8>()).prop_map(|(mut c, p, m)| {
        if m % 4 != 0 {
            c.pool = p;
        }
        c
    })
}
pub fn jobs(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for d in 1..=10u32 {
        for ch in 0..8u64 {
            let big = ch >= 5;
            let n = match (thorough, big) {
                (false, false) => 4_000,
                (false, true) => 250,
                (true, false) => 60_000,
                (true, true) => 4_000,
            };
            let n = if d > 7 { n / (1 << (d - 7)) } else { n };
            jobs.push(Job::new(format!("d{d}"), ch, d as u64, move |s: &mut Sink| {
                s.search(n, strategy(d, big), |c| c.encode(), |c| run(d, false, c));
            }));
        }
        for ch in 0..4u64 {
            let n = if thorough { 600 } else { 12 };
            jobs.push(Job::new(format!("p{d}"), ch, d as u64, move |s: &mut Sink| {
                s.search(n, strategy(d, false), |c| c.encode(), |c| run(d, true, c));
            }));
        }
    }
    for (i, (name, bits, _, _)) in WATCHED.into_iter().enumerate() {
        for ch in 0..4u64 {
            let big = ch == 3;
            let n = match (thorough, big) {
                (false, false) => 2_000,
                (false, true) => 200,
                (true, false) => 40_000,
                (true, true) => 3_000,
            };
            jobs.push(Job::new(name.to_string(), ch, 4, move |s: &mut Sink| {
                s.search(n, wide(bits, big), |c| c.encode(), |c| watched(i, false, c));
            }));
        }
        if bits >= 16 {
            let n = if thorough { 600 } else { 12 };
            jobs.push(Job::new(format!("{name}p"), 0, 4, move |s: &mut Sink| {
                s.search(n, wide(bits, false), |c| c.encode(), |c| watched(i, true, c));
            }));
        }
    }
    jobs
}
pub fn replay(unit: &str, t: &str) -> Option<Verdict> {
    if unit.starts_with('q') {
        let product = unit.ends_with('p');
        let i = WATCHED.iter().position(|w| w.0 == unit.trim_end_matches('p'))?;
        return Some(watched(i, product, &Case::decode(t)?));
    }
    let (product, d) = match unit.strip_prefix('p') {
        Some(d) => (true, d),
        None => (false, unit.strip_prefix('d')?),
    };
    Some(run(d.parse().ok()?, product, &Case::decode(t)?))
}
/// The largest counts seen, one line per operation.
pub fn seen() -> String {
    let names = ["insert", "remove", "remove_min", "remove_max", "find", "pred", "succ", "const"];
    names.iter().zip(&SEEN).map(|(n, r)| format!("{n}: {:?}\n", r.iter().map(|x| x.load(O::Relaxed)).collect::<Vec<_>>())).collect()
}
