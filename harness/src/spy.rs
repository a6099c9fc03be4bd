//! Building blocks as a user of the crate might supply them: naive, but correct, and watching
//! how they are used. Nothing in here uses a tree or collection of the crate.
use crate::rank::RankKey;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use typenum::Unsigned;
use veb_tree::bitset::{List, ListMarker, TreeList, TreeListMarker};
use veb_tree::collection::array::{ArrayMarker, OptionArray};
use veb_tree::collection::{TreeCollection, VebTreeCollectionMarker};
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey};
use veb_tree::tree::VebTreeMarker;
use veb_tree::{TreeKV, VebTree};

#[derive(Default)]
struct Registry {
    next: u64,
    /// Keys of the live summaries and collections, by role.
    summaries: BTreeMap<(u8, u64), BTreeSet<u128>>,
    collections: BTreeMap<(u8, u64), BTreeSet<u128>>,
    /// Lengths of the live lists, by role.
    lists: BTreeMap<(u8, u64), usize>,
    errors: Vec<String>,
}
thread_local! {
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
}
fn reg<R>(f: impl FnOnce(&mut Registry) -> R) -> R {
    REG.with(|r| f(&mut r.borrow_mut()))
}
pub fn reset() {
    reg(|r| *r = Registry::default());
}
thread_local! {
    static ASKED: Cell<u64> = const { Cell::new(0) };
    /// Requests are counted, and limited, only from the first call of `asked` on.
    static COUNTING: Cell<bool> = const { Cell::new(false) };
}
const RUNAWAY: u64 = 3_000_000;
/// One request to a part.
fn ask() {
    if !COUNTING.with(|c| c.get()) {
        return;
    }
    let n = ASKED.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n == RUNAWAY {
        panic!("{RUNAWAY} requests to parts in one call");
    }
}
/// Requests to parts since the last call of this.
pub fn asked() -> u64 {
    COUNTING.with(|c| c.set(true));
    ASKED.with(|c| c.replace(0))
}
fn misuse(m: String) -> ! {
    reg(|r| r.errors.push(m.clone()));
    panic!("{m}")
}

/// Roles: 0 unwatched; 1-9 a summary and the collection beside it; 11-19 a summary and the tree
/// list beside it; 21-29 a value list that holds the whole contents.
pub fn check(entries: usize) -> Option<String> {
    reg(|r| {
        if let Some(e) = r.errors.first() {
            return Some(format!("a part was used outside its contract: {e}"));
        }
        for role in 1..30u8 {
            let mut s: Vec<&BTreeSet<u128>> = r.summaries.range((role, 0)..=(role, u64::MAX)).map(|x| x.1).collect();
            match role {
                1..=9 => {
                    let mut c: Vec<&BTreeSet<u128>> = r.collections.range((role, 0)..=(role, u64::MAX)).map(|x| x.1).collect();
                    s.sort();
                    c.sort();
                    if s != c {
                        return Some(format!("summaries hold the keys {s:x?}, the collections beside them {c:x?}"));
                    }
                }
                _ => {
                    let mut l: Vec<usize> = r.lists.range((role, 0)..=(role, u64::MAX)).map(|x| *x.1).collect();
                    let mut want: Vec<usize> = s.iter().map(|x| x.len()).collect();
                    if role > 20 {
                        want = if entries > 0 && !l.is_empty() { vec![entries] } else { vec![] };
                    }
                    l.sort_unstable();
                    want.sort_unstable();
                    if l != want {
                        return Some(format!("lists hold {l:?} elements where {want:?} keys are stored"));
                    }
                }
            }
        }
        None
    })
}
pub fn misused() -> bool {
    reg(|r| !r.errors.is_empty())
}
/// What is still there when everything is gone.
pub fn left() -> Option<String> {
    reg(|r| {
        let n = r.summaries.len() + r.collections.len() + r.lists.len();
        (n > 0).then(|| format!("{n} parts are still alive after the tree is gone"))
    })
}

/// A tree as a sorted vector. It knows its size but reports only what the contract demands, and
/// hands out its keys now borrowed, now owned.
pub struct SpyTree<K: RankKey, V, const R: u8> {
    v: Vec<(K, V)>,
    id: u64,
}
impl<K: RankKey, V, const R: u8> SpyTree<K, V, R> {
    fn note(&self, f: impl FnOnce(&mut BTreeSet<u128>)) {
        if R != 0 {
            reg(|r| f(r.summaries.entry((R, self.id)).or_default()));
        }
    }
}
impl<K: RankKey, V, const R: u8> Drop for SpyTree<K, V, R> {
    fn drop(&mut self) {
        if R != 0 {
            let id = self.id;
            let _ = REG.try_with(|r| BTreeMap::remove(&mut r.borrow_mut().summaries, &(R, id)));
        }
    }
}
impl<K: RankKey + Ord + Clone, V, const R: u8> SpyTree<K, V, R> {
    fn key(&self, i: usize) -> MaybeBorrowed<'_, K> {
        let k = &self.v[i].0;
        if (self.v.len() + i) % 2 == 0 {
            MaybeBorrowed::Owned(k.clone())
        } else {
            MaybeBorrowed::Borrowed(k)
        }
    }
    fn at(&self, i: Option<usize>) -> Option<(MaybeBorrowed<'_, K>, &V)> {
        let i = i?;
        Some((self.key(i), &self.v[i].1))
    }
    fn at_mut(&mut self, i: Option<usize>) -> Option<(MaybeBorrowed<'_, K>, &mut V)> {
        let i = i?;
        let owned = (self.v.len() + i) % 2 == 0;
        let (k, v) = &mut self.v[i];
        Some((if owned { MaybeBorrowed::Owned(k.clone()) } else { MaybeBorrowed::Borrowed(k) }, v))
    }
    fn pos(&self, k: &K) -> Result<usize, usize> {
        self.v.binary_search_by(|e| e.0.cmp(k))
    }
    fn before(&self, k: &K) -> Option<usize> {
        self.pos(k).unwrap_or_else(|i| i).checked_sub(1)
    }
    fn after(&self, k: &K) -> Option<usize> {
        let i = match self.pos(k) {
            Ok(i) => i + 1,
            Err(i) => i,
        };
        (i < self.v.len()).then_some(i)
    }
    fn take(mut self, i: usize) -> (Option<Self>, (K, V)) {
        let e = self.v.remove(i);
        let k = e.0.rank();
        self.note(|s| {
            s.remove(&k);
        });
        if self.v.is_empty() {
            (None, e)
        } else {
            (Some(self), e)
        }
    }
}
impl<K: RankKey + Ord + Clone, V, const R: u8> VebTree for SpyTree<K, V, R> {
    type Key = K;
    type Value = V;
    fn from_monad(key: K, val: V) -> Self {
        ask();
        let id = reg(|r| {
            r.next += 1;
            r.next
        });
        let rank = key.rank();
        let t = SpyTree { v: vec![(key, val)], id };
        t.note(|s| {
            s.insert(rank);
        });
        t
    }
    fn is_monad(&self) -> bool {
        ask();
        self.v.len() == 1
    }
    fn len_hint(&self) -> (usize, Option<usize>) {
        ask();
        (1, None)
    }
    fn into_monad(self) -> Result<(K, V), Self> {
        ask();
        if self.v.len() == 1 {
            Ok(self.take(0).1)
        } else {
            Err(self)
        }
    }
    fn min_val(&self) -> (MaybeBorrowed<'_, K>, &V) {
        ask();
        self.at(Some(0)).unwrap()
    }
    fn min_val_mut(&mut self) -> (MaybeBorrowed<'_, K>, &mut V) {
        ask();
        self.at_mut(Some(0)).unwrap()
    }
    fn max_val(&self) -> (MaybeBorrowed<'_, K>, &V) {
        ask();
        self.at(Some(self.v.len() - 1)).unwrap()
    }
    fn max_val_mut(&mut self) -> (MaybeBorrowed<'_, K>, &mut V) {
        ask();
        let i = self.v.len() - 1;
        self.at_mut(Some(i)).unwrap()
    }
    fn find<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> {
        ask();
        self.at(self.pos(k.borrow()).ok())
    }
    fn find_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> {
        ask();
        let i = self.pos(k.borrow()).ok();
        self.at_mut(i)
    }
    fn predecessor<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> {
        ask();
        self.at(self.before(k.borrow()))
    }
    fn predecessor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> {
        ask();
        let i = self.before(k.borrow());
        self.at_mut(i)
    }
    fn successor<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> {
        ask();
        self.at(self.after(k.borrow()))
    }
    fn successor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> {
        ask();
        let i = self.after(k.borrow());
        self.at_mut(i)
    }
    fn insert(&mut self, k: K, v: V) -> Option<(K, V)> {
        ask();
        match self.pos(&k) {
            Ok(i) => Some(std::mem::replace(&mut self.v[i], (k, v))),
            Err(i) => {
                let rank = k.rank();
                self.v.insert(i, (k, v));
                self.note(|s| {
                    s.insert(rank);
                });
                None
            }
        }
    }
    fn remove<Q: Borrow<K>>(self, k: Q) -> Result<(Option<Self>, (K, V)), Self> {
        ask();
        match self.pos(k.borrow()) {
            Ok(i) => Ok(self.take(i)),
            Err(_) => Err(self),
        }
    }
    fn remove_min(self) -> (Option<Self>, (K, V)) {
        ask();
        self.take(0)
    }
    fn remove_max(self) -> (Option<Self>, (K, V)) {
        ask();
        let i = self.v.len() - 1;
        self.take(i)
    }
}
pub struct Spy<const R: u8>;
impl<K: RankKey + Ord + Clone, V, const R: u8> VebTreeMarker<K, V> for Spy<R> {
    type Tree = SpyTree<K, V, R>;
}

/// A collection as an unsorted vector.
pub struct SpyColl<H: RankKey, T, const R: u8> {
    v: Vec<(H, T)>,
    id: u64,
}
impl<H: RankKey, T, const R: u8> SpyColl<H, T, R> {
    fn note(&self, f: impl FnOnce(&mut BTreeSet<u128>)) {
        reg(|r| f(r.collections.entry((R, self.id)).or_default()));
    }
    fn pos(&self, h: &H) -> Option<usize>
    where
        H: PartialEq,
    {
        self.v.iter().position(|e| e.0 == *h)
    }
}
impl<H: RankKey, T, const R: u8> Drop for SpyColl<H, T, R> {
    fn drop(&mut self) {
        let id = self.id;
        let _ = REG.try_with(|r| BTreeMap::remove(&mut r.borrow_mut().collections, &(R, id)));
    }
}
impl<H: RankKey + Eq + Clone, T: VebTree, const R: u8> TreeCollection for SpyColl<H, T, R> {
    type Hi = H;
    type Tree = T;
    fn create(h: &H, tree: T) -> Self {
        ask();
        let id = reg(|r| {
            r.next += 1;
            r.next
        });
        let c = SpyColl { v: vec![(h.clone(), tree)], id };
        c.note(|s| {
            s.insert(h.rank());
        });
        c
    }
    fn get(&self, h: &H) -> Option<&T> {
        ask();
        self.pos(h).map(|i| &self.v[i].1)
    }
    fn get_mut(&mut self, h: &H) -> Option<&mut T> {
        ask();
        let i = self.pos(h)?;
        Some(&mut self.v[i].1)
    }
    fn insert_key(&mut self, h: H, (l, v): TreeKV<T>) -> Result<H, (H, Option<TreeKV<T>>)> {
        ask();
        match self.pos(&h) {
            Some(i) => Err((h, self.v[i].1.insert(l, v))),
            None => {
                self.note(|s| {
                    s.insert(h.rank());
                });
                self.v.push((h.clone(), T::from_monad(l, v)));
                Ok(h)
            }
        }
    }
    fn remove_key<Q, F>(mut self, h: Q, f: F) -> (Option<(Self, bool)>, TreeKV<T>)
    where
        Q: Borrow<H>,
        F: FnOnce(T) -> (Option<T>, TreeKV<T>),
    {
        ask();
        let h = h.borrow();
        let Some(i) = self.pos(h) else { misuse(format!("unconditional removal under the missing key {:x}", h.rank())) };
        let (k, t) = self.v.swap_remove(i);
        let (t, e) = f(t);
        let gone = t.is_none();
        match t {
            Some(t) => self.v.push((k, t)),
            None => self.note(|s| {
                s.remove(&k.rank());
            }),
        }
        if self.v.is_empty() {
            (None, e)
        } else {
            (Some((self, gone)), e)
        }
    }
    fn maybe_remove_key<Q, F>(mut self, h: Q, f: F) -> Result<(Option<(Self, bool)>, TreeKV<T>), Self>
    where
        Q: Borrow<H>,
        F: FnOnce(T) -> Result<(Option<T>, TreeKV<T>), T>,
    {
        ask();
        let Some(i) = self.pos(h.borrow()) else { return Err(self) };
        let (k, t) = self.v.swap_remove(i);
        match f(t) {
            Err(t) => {
                self.v.push((k, t));
                Err(self)
            }
            Ok((t, e)) => {
                let gone = t.is_none();
                match t {
                    Some(t) => self.v.push((k, t)),
                    None => self.note(|s| {
                        s.remove(&k.rank());
                    }),
                }
                Ok(if self.v.is_empty() { (None, e) } else { (Some((self, gone)), e) })
            }
        }
    }
}
pub struct SpyC<T, const R: u8>(PhantomData<T>);
impl<K, V, T, const R: u8> VebTreeCollectionMarker<K, V> for SpyC<T, R>
where
    K: VebKey,
    K::Hi: RankKey + Eq + Clone,
    T: VebTreeMarker<K::Lo, V>,
{
    type TreeCollection = SpyColl<K::Hi, T::Tree, R>;
}

/// A list of values or trees that insists on positions within its length.
pub struct SpyList<T, const R: u8> {
    v: Vec<T>,
    id: u64,
}
impl<T, const R: u8> SpyList<T, R> {
    fn one(v: T) -> Self {
        let id = reg(|r| {
            r.next += 1;
            r.next
        });
        let l = SpyList { v: vec![v], id };
        l.note();
        l
    }
    fn note(&self) {
        if R != 0 {
            reg(|r| r.lists.insert((R, self.id), self.v.len()));
        }
    }
    fn within(&self, i: usize, what: &str) {
        if i >= self.v.len() {
            misuse(format!("{what} at position {i} of a list of {} elements", self.v.len()))
        }
    }
    fn put(&mut self, i: usize, v: T) {
        if i > self.v.len() {
            misuse(format!("insertion at position {i} of a list of {} elements", self.v.len()))
        }
        self.v.insert(i, v);
        self.note();
    }
}
impl<T, const R: u8> Drop for SpyList<T, R> {
    fn drop(&mut self) {
        if R != 0 {
            let id = self.id;
            let _ = REG.try_with(|r| BTreeMap::remove(&mut r.borrow_mut().lists, &(R, id)));
        }
    }
}
impl<V, const R: u8> List for SpyList<V, R> {
    type Value = V;
    fn from_monad(v: V) -> Self {
        ask();
        Self::one(v)
    }
    fn len(&self) -> usize {
        ask();
        self.v.len()
    }
    fn get(&self, i: usize) -> &V {
        ask();
        self.within(i, "read");
        &self.v[i]
    }
    fn get_mut(&mut self, i: usize) -> &mut V {
        ask();
        self.within(i, "write");
        &mut self.v[i]
    }
    fn insert_value(&mut self, i: usize, v: V) {
        ask();
        self.put(i, v)
    }
    fn remove_value(mut self, i: usize) -> (Option<Self>, V) {
        ask();
        self.within(i, "removal");
        let v = self.v.remove(i);
        self.note();
        (if self.v.is_empty() { None } else { Some(self) }, v)
    }
}
impl<T: VebTree, const R: u8> TreeList for SpyList<T, R> {
    type Tree = T;
    fn from_monad(v: T) -> Self {
        ask();
        Self::one(v)
    }
    fn len(&self) -> std::num::NonZeroUsize {
        ask();
        std::num::NonZeroUsize::new(self.v.len()).unwrap()
    }
    fn get(&self, i: usize) -> &T {
        ask();
        self.within(i, "read");
        &self.v[i]
    }
    fn get_mut(&mut self, i: usize) -> &mut T {
        ask();
        self.within(i, "write");
        &mut self.v[i]
    }
    fn insert_tree(&mut self, i: usize, v: T) {
        ask();
        self.put(i, v)
    }
    fn remove_key<F>(mut self, i: usize, f: F) -> (Option<(Self, bool)>, TreeKV<T>)
    where
        F: FnOnce(T) -> (Option<T>, TreeKV<T>),
    {
        ask();
        self.within(i, "removal");
        let (t, e) = f(self.v.remove(i));
        let gone = t.is_none();
        if let Some(t) = t {
            self.v.insert(i, t);
        }
        self.note();
        (if self.v.is_empty() { None } else { Some((self, gone)) }, e)
    }
    fn maybe_remove_key<F>(mut self, i: usize, f: F) -> Result<(Option<(Self, bool)>, TreeKV<T>), Self>
    where
        F: FnOnce(T) -> Result<(Option<T>, TreeKV<T>), T>,
    {
        ask();
        self.within(i, "removal");
        match f(self.v.remove(i)) {
            Err(t) => {
                self.v.insert(i, t);
                Err(self)
            }
            Ok((t, e)) => {
                let gone = t.is_none();
                if let Some(t) = t {
                    self.v.insert(i, t);
                }
                self.note();
                Ok((if self.v.is_empty() { None } else { Some((self, gone)) }, e))
            }
        }
    }
}
pub struct SpyL<const R: u8>;
impl<V, const R: u8> ListMarker<V> for SpyL<R> {
    type List = SpyList<V, R>;
}
impl<T: VebTree, const R: u8> TreeListMarker<T> for SpyL<R> {
    type List = SpyList<T, R>;
}

/// Slots that insist on indices below the declared number, and exist only once touched.
pub struct SpyArr<T, C> {
    v: BTreeMap<usize, Option<T>>,
    _c: PhantomData<C>,
}
impl<T: VebTree, C: Unsigned> OptionArray<C> for SpyArr<T, C> {
    type V = T;
    fn create() -> Self {
        ask();
        SpyArr { v: BTreeMap::new(), _c: PhantomData }
    }
    fn get(&self, i: usize) -> &Option<T> {
        ask();
        if i >= C::USIZE {
            misuse(format!("read of slot {i} of {}", C::USIZE))
        }
        self.v.get(&i).unwrap_or(&None)
    }
    fn get_mut(&mut self, i: usize) -> &mut Option<T> {
        ask();
        if i >= C::USIZE {
            misuse(format!("write of slot {i} of {}", C::USIZE))
        }
        self.v.entry(i).or_insert(None)
    }
}
/// `L` is the type of the low halves: the crate passes only the high half's type.
pub struct SpyA<L, T>(PhantomData<(L, T)>);
impl<K: SizedVebKey, L, V, T: VebTreeMarker<L, V>> ArrayMarker<K, V> for SpyA<L, T> {
    type Array = SpyArr<T::Tree, K::Cardinality>;
}
